//! Harnesses for the spake2 crate.
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT, EIGHT_TORSION};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use rand_core::{CryptoRng, RngCore};
use sha2::{Digest, Sha256};
use spake2::{Ed25519Group, Error, Group, Identity, Password, Spake2};
use symenv::{assume, bytes, check, choose, fill, harnesses, pick, reach, same};

type S = Spake2<Ed25519Group>;
const MAXLEN: usize = 600;

/// a symbolic byte string of one of the given lengths
#[derive(Clone)]
struct Buf {
    b: [u8; MAXLEN],
    n: usize,
}
impl Buf {
    fn new(lens: &[usize], tag: &str) -> Self {
        Self::of(pick(lens, tag), tag)
    }
    fn of(n: usize, tag: &str) -> Self {
        let mut x = Buf { b: [0; MAXLEN], n };
        fill(&mut x.b[..x.n], tag);
        x
    }
    fn s(&self) -> &[u8] {
        &self.b[..self.n]
    }
    fn id(&self) -> Identity {
        Identity::new(self.s())
    }
    fn pw(&self) -> Password {
        Password::new(self.s())
    }
}
/// Hands out one symbolic byte, then zeros: reduced modulo the group order this reaches every scalar of the model.
#[derive(Clone)]
struct Rng {
    b: u8,
    used: bool,
}
impl Rng {
    fn new(tag: &str) -> Self {
        Rng { b: symenv::u8(tag), used: false }
    }
}
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        dest.fill(0);
        if !self.used && !dest.is_empty() {
            dest[0] = self.b;
            self.used = true;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Rng {}

#[derive(Clone, Copy, PartialEq)]
enum Side {
    A,
    B,
    Sym,
}
const SIDES: [Side; 3] = [Side::A, Side::B, Side::Sym];
impl Side {
    fn any() -> Side {
        SIDES[choose(0, 2, "side")]
    }
    fn byte(self) -> u8 {
        [0x41, 0x42, 0x53][self as usize]
    }
    fn peer(self) -> Side {
        [Side::B, Side::A, Side::Sym][self as usize]
    }
    fn start(self, pw: &Password, ida: &Identity, idb: &Identity, rng: Rng) -> (S, Vec<u8>) {
        match self {
            Side::A => S::start_a_with_rng(pw, ida, idb, rng),
            Side::B => S::start_b_with_rng(pw, ida, idb, rng),
            Side::Sym => S::start_symmetric_with_rng(pw, ida, rng),
        }
    }
    /// the blinding element of this side's message
    fn blind(self) -> EdwardsPoint {
        CompressedEdwardsY(MNS[self as usize]).decompress().unwrap()
    }
}
/// M, N and S of python-spake2's ParamsEd25519 (the values other implementations interoperate with)
const MNS: [[u8; 32]; 3] = [
    [
        0x15, 0xcf, 0xd1, 0x8e, 0x38, 0x59, 0x52, 0x98, 0x2b, 0x6a, 0x8f, 0x8c, 0x78, 0x54, 0x96, 0x3b, 0x58, 0xe3,
        0x43, 0x88, 0xc8, 0xe6, 0xda, 0xe8, 0x91, 0xdb, 0x75, 0x64, 0x81, 0xa0, 0x23, 0x12,
    ],
    [
        0xf0, 0x4f, 0x2e, 0x7e, 0xb7, 0x34, 0xb2, 0xa8, 0xf8, 0xb4, 0x72, 0xea, 0xf9, 0xc3, 0xc6, 0x32, 0x57, 0x6a,
        0xc6, 0x4a, 0xea, 0x65, 0x0b, 0x49, 0x6a, 0x8a, 0x20, 0xff, 0x00, 0xe5, 0x83, 0xc3,
    ],
    [
        0x6f, 0x00, 0xda, 0xe8, 0x7c, 0x1b, 0xe1, 0xa7, 0x3b, 0x59, 0x22, 0xef, 0x43, 0x1c, 0xd8, 0xf5, 0x78, 0x79,
        0x56, 0x9c, 0x22, 0x2d, 0x22, 0xb1, 0xcd, 0x71, 0xe8, 0x54, 0x6a, 0xb8, 0xe6, 0xf1,
    ],
];
fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
fn hmac(key: &[u8; 32], parts: &[&[u8]]) -> [u8; 32] {
    let mut i = [0x36u8; 64];
    let mut o = [0x5cu8; 64];
    for k in 0..32 {
        i[k] ^= key[k];
        o[k] ^= key[k];
    }
    let mut h = Sha256::new();
    h.update(i);
    for p in parts {
        h.update(p);
    }
    let inner: [u8; 32] = h.finalize().into();
    sha(&[&o, &inner])
}
/// int(HKDF-SHA256(salt = "", ikm = password, info = "SPAKE2 pw", 48 bytes), big-endian) mod q
fn pw_scalar(pw: &[u8]) -> Scalar {
    let prk = hmac(&[0; 32], &[pw]);
    let t1 = hmac(&prk, &[b"SPAKE2 pw", &[1]]);
    let t2 = hmac(&prk, &[&t1, b"SPAKE2 pw", &[2]]);
    let mut le = [0u8; 64];
    for i in 0..32 {
        le[47 - i] = t1[i];
    }
    for i in 0..16 {
        le[15 - i] = t2[i];
    }
    Scalar::from_bytes_mod_order_wide(&le)
}
/// the message element of `side`
fn ref_msg(side: Side, pw: &[u8], rng: &Rng) -> [u8; 32] {
    let x = Scalar::random(&mut rng.clone());
    (ED25519_BASEPOINT_POINT * x + side.blind() * pw_scalar(pw)).compress().to_bytes()
}
fn less(a: &[u8; 32], b: &[u8; 32]) -> bool {
    a[..] < b[..]
}
/// the key `side` derives from the peer's element `y` encoded as `msg`
fn ref_key(side: Side, pw: &[u8], ida: &[u8], idb: &[u8], rng: &Rng, y: EdwardsPoint, msg: &[u8; 32]) -> [u8; 32] {
    let x = Scalar::random(&mut rng.clone());
    let own = ref_msg(side, pw, rng);
    let k = ((y - side.peer().blind() * pw_scalar(pw)) * x).compress().to_bytes();
    let (hp, ha, hb) = (sha(&[pw]), sha(&[ida]), sha(&[idb]));
    match side {
        Side::A => sha(&[&hp, &ha, &hb, &own, msg, &k]),
        Side::B => sha(&[&hp, &ha, &hb, msg, &own, &k]),
        Side::Sym if less(&own, msg) => sha(&[&hp, &ha, &own, msg, &k]),
        Side::Sym => sha(&[&hp, &ha, msg, &own, &k]),
    }
}
fn arr(b: &[u8]) -> [u8; 32] {
    let mut a = [0; 32];
    a.copy_from_slice(b);
    a
}
/// any element of the group, as a message of `side`
fn element(side: Side) -> (EdwardsPoint, [u8; 33]) {
    let e = ED25519_BASEPOINT_POINT * Scalar::random(&mut Rng::new("element")) + EIGHT_TORSION[choose(0, 7, "torsion")];
    let mut m = [side.byte(); 33];
    m[1..].copy_from_slice(&e.compress().to_bytes());
    (e, m)
}

/// lengths of password, idA and idB on the two sides
const SHAPES: [(usize, usize, usize, usize, usize, usize); 14] = [
    (1, 1, 1, 1, 1, 1),
    (300, 300, 300, 300, 300, 300),
    (1, 2, 0, 0, 0, 0),
    (2, 2, 1, 0, 0, 0),
    (1, 1, 1, 2, 2, 1),
    (1, 1, 0, 0, 1, 0),
    (1, 1, 2, 1, 0, 1),
    (1, 1, 300, 299, 1, 1),
    (2, 2, 2, 2, 2, 2),
    (0, 1, 0, 0, 0, 0),
    (33, 33, 33, 33, 33, 33),
    (65, 65, 65, 65, 65, 65),
    (64, 128, 1, 1, 1, 1),
    (1, 1, 0, 0, 300, 64),
];

harnesses! {
    /// P01: an honest A and an honest B agree
    fn p01_agree() {
        let pw = Buf::new(&[1, 3, 0, 64, 300], "pw");
        let ida = Buf::new(&[1, 0, 300], "ida");
        let idb = Buf::new(&[1, 0, 300], "idb");
        let (a, ma) = Side::A.start(&pw.pw(), &ida.id(), &idb.id(), Rng::new("x"));
        let (b, mb) = Side::B.start(&pw.pw(), &ida.id(), &idb.id(), Rng::new("y"));
        let (ka, kb) = (a.finish(&mb), b.finish(&ma));
        check(ka.is_ok() && kb.is_ok(), "both sides finish");
        if let (Ok(ka), Ok(kb)) = (ka, kb) {
            check(ka.len() == 32, "the key has 32 bytes");
            check(same(&ka, &kb), "both sides hold the same key");
            reach("agreed");
        }
    }
    /// P05: two honest symmetric sides agree, whichever message is the smaller one
    fn p05_symmetric() {
        let pw = Buf::new(&[1, 3, 0, 64, 300], "pw");
        let id = Buf::new(&[1, 0, 300], "ida");
        let (a, ma) = Side::Sym.start(&pw.pw(), &id.id(), &id.id(), Rng::new("x"));
        let (b, mb) = Side::Sym.start(&pw.pw(), &id.id(), &id.id(), Rng::new("y"));
        let (ka, kb) = (a.finish(&mb), b.finish(&ma));
        check(ka.is_ok() && kb.is_ok(), "both sides finish");
        if let (Ok(ka), Ok(kb)) = (ka, kb) {
            check(ka.len() == 32, "the key has 32 bytes");
            check(same(&ka, &kb), "both sides hold the same key");
            if same(&ma, &mb) {
                reach("equal messages");
            } else if less(&arr(&ma[1..]), &arr(&mb[1..])) {
                reach("own message first");
            } else {
                reach("own message second");
            }
        }
    }
    /// P02: any byte string is answered by exactly the documented result, without a panic
    fn p02_validate() {
        let side = Side::any();
        let msg = Buf::new(&[33, 0, 1, 2, 32, 34, 64, 65, 300], "msg");
        let (pw, id) = (Password::new([7u8]), Identity::new(&[8]));
        let (s, _) = side.start(&pw, &id, &id, Rng::new("x"));
        let r = s.finish(msg.s());
        if msg.n != 33 {
            check(r == Err(Error::WrongLength), "a message of another length is refused as such");
            reach("wrong length");
            return;
        }
        if msg.b[0] != side.peer().byte() {
            check(r == Err(Error::BadSide), "a message of another side is refused as such");
            reach("bad side");
            return;
        }
        if CompressedEdwardsY(arr(&msg.b[1..33])).decompress().is_none() {
            check(r == Err(Error::CorruptMessage), "a message without a group element is refused as such");
            reach("corrupt");
            return;
        }
        match r {
            Ok(k) => {
                check(k.len() == 32, "the key has 32 bytes");
                reach("accepted");
            }
            Err(_) => check(false, "a valid message is accepted"),
        }
    }
    /// P02: every group element is accepted from the peer's side, and only from there
    fn p02_elements() {
        let side = Side::any();
        let from = SIDES[choose(0, 2, "from")];
        let (pw, id) = (Password::new([7u8]), Identity::new(&[8]));
        let (s, own) = side.start(&pw, &id, &id, Rng::new("x"));
        let (_, m) = element(from);
        let r = s.finish(&m);
        if from == side.peer() {
            check(r.is_ok(), "an element from the peer's side is accepted");
            reach("accepted");
        } else {
            check(r == Err(Error::BadSide), "an element from another side is refused");
            reach("refused");
        }
        if side != Side::Sym {
            let (s, _) = side.start(&pw, &id, &id, Rng::new("x2"));
            check(s.finish(&own) == Err(Error::BadSide), "a message of the own side is refused");
        }
    }
    /// P03: equal keys imply equal password, identities and messages (collision-free hash)
    fn p03_binding() {
        let l = SHAPES[choose(0, SHAPES.len() as u64 - 1, "shape")];
        let (pw, pw2) = (Buf::of(l.0, "pw"), Buf::of(l.1, "pw2"));
        let (ida, ida2) = (Buf::of(l.2, "ida"), Buf::of(l.3, "ida2"));
        let (idb, idb2) = (Buf::of(l.4, "idb"), Buf::of(l.5, "idb2"));
        let (a, ma) = Side::A.start(&pw.pw(), &ida.id(), &idb.id(), Rng::new("x"));
        let (b, mb) = Side::B.start(&pw2.pw(), &ida2.id(), &idb2.id(), Rng::new("y"));
        // what the two sides receive is up to the network
        let (_, to_a) = element(Side::B);
        let (_, to_b) = element(Side::A);
        let (ka, kb) = (a.finish(&to_a), b.finish(&to_b));
        if let (Ok(ka), Ok(kb)) = (ka, kb) {
            if same(&ka, &kb) {
                check(same(pw.s(), pw2.s()), "equal keys: equal passwords");
                check(same(ida.s(), ida2.s()), "equal keys: equal identities of A");
                check(same(idb.s(), idb2.s()), "equal keys: equal identities of B");
                check(same(&ma, &to_b) && same(&mb, &to_a), "equal keys: messages arrived as sent");
                reach("equal keys");
            } else {
                reach("different keys");
            }
        }
    }
    fn p03_symmetric() {
        let l = SHAPES[choose(0, SHAPES.len() as u64 - 1, "shape")];
        let (pw, pw2) = (Buf::of(l.0, "pw"), Buf::of(l.1, "pw2"));
        let (id, id2) = (Buf::of(l.2, "ida"), Buf::of(l.3, "ida2"));
        let (a, ma) = Side::Sym.start(&pw.pw(), &id.id(), &id.id(), Rng::new("x"));
        let (b, mb) = Side::Sym.start(&pw2.pw(), &id2.id(), &id2.id(), Rng::new("y"));
        let (_, to_a) = element(Side::Sym);
        let (_, to_b) = element(Side::Sym);
        let (ka, kb) = (a.finish(&to_a), b.finish(&to_b));
        if let (Ok(ka), Ok(kb)) = (ka, kb) {
            if same(&ka, &kb) {
                check(same(pw.s(), pw2.s()), "equal keys: equal passwords");
                check(same(id.s(), id2.s()), "equal keys: equal identities");
                check(
                    (same(&ma, &to_b) && same(&mb, &to_a)) || (same(&ma, &mb) && same(&to_a, &to_b)),
                    "equal keys: the same two messages on both sides",
                );
                reach("equal keys");
            } else {
                reach("different keys");
            }
        }
    }
    /// P04: the message is side byte and B*x + blind*pw, the key is the hash of the documented transcript
    fn p04_format() {
        let side = Side::any();
        let pw = Buf::new(&[2, 0, 64, 300], "pw");
        let ida = Buf::new(&[2, 0, 300], "ida");
        let idb = Buf::new(&[2, 0, 300], "idb");
        let rng = Rng::new("x");
        let (s, m) = side.start(&pw.pw(), &ida.id(), &idb.id(), rng.clone());
        check(m.len() == 33 && m[0] == side.byte(), "message: 33 bytes starting with the side");
        check(same(&m[1..], &ref_msg(side, pw.s(), &rng)), "message element");
        let (y, got) = element(side.peer());
        match s.finish(&got) {
            Ok(k) => {
                check(same(&k, &ref_key(side, pw.s(), ida.s(), idb.s(), &rng, y, &arr(&got[1..]))), "key");
                reach("done");
            }
            Err(_) => check(false, "a valid message is accepted"),
        }
    }
    /// P04: the transcript holds the received bytes, also of a non-canonical encoding
    fn p04_received() {
        let side = Side::any();
        let (pw, id) = ([7u8], [8u8]);
        let rng = Rng::new("x");
        let (s, _) = side.start(&Password::new(pw), &Identity::new(&id), &Identity::new(&id), rng.clone());
        let mut m = [side.peer().byte(); 33];
        m[1..].copy_from_slice(&bytes::<32>("msg"));
        if let (Ok(k), Some(y)) = (s.finish(&m), CompressedEdwardsY(arr(&m[1..])).decompress()) {
            check(same(&k, &ref_key(side, &pw, &id, &id, &rng, y, &arr(&m[1..]))), "key");
            reach("done");
        }
    }
    /// P07: the group interface: codec, password scalars, group laws
    fn p07_codec() {
        type G = Ed25519Group;
        let b = Buf::new(&[32, 0, 1, 31, 33, 64], "bytes");
        let e = G::bytes_to_element(b.s());
        check(G::element_length() == 32, "element length");
        if b.n != 32 {
            check(e.is_none(), "bytes of another length are no element");
            reach("wrong length");
            return;
        }
        let d = CompressedEdwardsY(arr(b.s())).decompress();
        check(e.is_some() == d.is_some(), "decodes exactly the valid encodings");
        if let (Some(e), Some(d)) = (e, d) {
            check(e == d, "decoded element");
            let back = G::element_to_bytes(&e);
            check(same(&back, &d.compress().to_bytes()), "encoded element");
            check(G::bytes_to_element(&back) == Some(e), "round trip");
            reach("valid");
        } else {
            reach("invalid");
        }
    }
    fn p07_scalar() {
        type G = Ed25519Group;
        let pw = Buf::new(&[2, 0, 1, 63, 64, 65, 300], "pw");
        check(G::hash_to_scalar(pw.s()) == pw_scalar(pw.s()), "password scalar");
        let rng = Rng::new("x");
        let x = G::random_scalar(&mut rng.clone());
        check(x == Scalar::random(&mut rng.clone()), "random scalar");
        reach("done");
    }
    fn p07_laws() {
        type G = Ed25519Group;
        let (s, t) = (Scalar::random(&mut Rng::new("s")), Scalar::random(&mut Rng::new("t")));
        let e = element(Side::A).0;
        let f = ED25519_BASEPOINT_POINT * Scalar::random(&mut Rng::new("f"));
        check(G::basepoint_mult(&s) == ED25519_BASEPOINT_POINT * s, "base point multiple");
        check(G::scalarmult(&e, &s) == e * s, "multiple");
        check(G::add(&e, &f) == e + f && G::add(&f, &e) == e + f, "sum");
        check(G::scalar_neg(&s) + s == Scalar::ZERO, "negation");
        check(G::add(&G::scalarmult(&f, &G::scalar_neg(&s)), &G::scalarmult(&f, &s)) == f * Scalar::ZERO, "inverse");
        check(G::scalarmult(&G::scalarmult(&f, &s), &t) == G::scalarmult(&G::scalarmult(&f, &t), &s), "multiples commute");
        for (i, c) in [G::const_m(), G::const_n(), G::const_s()].iter().enumerate() {
            check(*c == SIDES[i].blind(), "M, N and S");
        }
        check(G::name() == "Ed25519", "name");
        reach("done");
    }
    /// P08: the debug output depends on group, side and identities only
    fn p08_debug() {
        let side = Side::any();
        let ida = Buf::new(&[1, 0, 2], "ida");
        let idb = Buf::new(&[1], "idb");
        let (p1, p2) = (Buf::new(&[2], "pw"), Buf::new(&[2, 9], "pw2"));
        let (a, _) = side.start(&p1.pw(), &ida.id(), &idb.id(), Rng::new("x"));
        let (b, _) = side.start(&p2.pw(), &ida.id(), &idb.id(), Rng::new("y"));
        let (fa, fb) = (format!("{:?}", a), format!("{:?}", b));
        check(same(fa.as_bytes(), fb.as_bytes()), "debug output does not depend on password or secret scalar");
        let (fa, fb) = (format!("{:#?}", a), format!("{:#?}", b));
        check(same(fa.as_bytes(), fb.as_bytes()), "indented debug output does not depend on password or secret scalar");
        reach("done");
    }
}
#[allow(unused)]
fn unused() {
    assume(true);
}
