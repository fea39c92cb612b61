//! Harnesses for the srp crate.  Groups are small prime fields (the code is generic over the group), hash
//! functions are random oracles of a few bytes (the code is generic over the hash).
use digest::generic_array::typenum::{U2, U20, U32, U64};
use digest::Digest;
use num_bigint::BigUint;
use srp::client::{SrpClient, SrpClientVerifier};
use srp::groups::*;
use srp::server::{SrpServer, SrpServerVerifier};
use srp::types::{SrpAuthError, SrpGroup};
use srp::utils::*;
use symenv::{assume, bytes, check, choose, fill, harnesses, pick, reach, ro, ro::Ro, same};

type D = Ro<U2>;
type DJ = Ro<U2, { ro::INJ }>;
/// primes with a generator; encodings of elements take one byte, or one or two
const GROUPS: [(u64, u64); 6] = [(23, 5), (257, 3), (263, 5), (11, 2), (7, 3), (251, 6)];
const MAXLEN: usize = 300;

struct G {
    n: u64,
    g: u64,
    grp: SrpGroup,
}
fn group() -> G {
    let (n, g) = GROUPS[choose(0, GROUPS.len() as u64 - 1, "group")];
    G { n, g, grp: SrpGroup { n: BigUint::from(n), g: BigUint::from(g) } }
}
/// a symbolic byte string of one of the given lengths
struct Buf {
    b: [u8; MAXLEN],
    n: usize,
}
impl Buf {
    fn new(lens: &[usize], tag: &str) -> Self {
        let mut x = Buf { b: [0; MAXLEN], n: pick(lens, tag) };
        fill(&mut x.b[..x.n], tag);
        x
    }
    fn s(&self) -> &[u8] {
        &self.b[..self.n]
    }
}
/// b with z zero bytes in front
fn padded(b: &[u8], z: usize) -> Vec<u8> {
    let mut v = vec![0; z];
    v.extend_from_slice(b);
    v
}
/// big-endian value of at most 8 bytes
fn num(b: &[u8]) -> u64 {
    let mut r = 0u64;
    for x in b {
        r = (r << 8) | *x as u64;
    }
    r
}
/// big-endian value modulo n, any length
fn num_mod(b: &[u8], n: u64) -> u64 {
    let mut r = 0u64;
    for x in b {
        r = ((r << 8) | *x as u64) % n;
    }
    r
}
/// value of a BigUint known to be below 2^64
fn val(b: &BigUint) -> u64 {
    num(&b.to_bytes_be())
}
fn pw(b: u64, e: u64, n: u64) -> u64 {
    symenv::modpow(b % n, &[e], n)
}
/// minimal big-endian encoding as produced by BigUint::to_bytes_be (zero is one zero byte)
fn enc(v: u64) -> Vec<u8> {
    BigUint::from(v).to_bytes_be()
}
fn hh(parts: &[&[u8]]) -> [u8; 2] {
    let mut o = [0; 2];
    ro::hash(parts, &mut o);
    o
}
fn ref_k(g: &G) -> u64 {
    let (n, gg) = (enc(g.n), enc(g.g));
    let mut pad = vec![0u8; n.len() - gg.len()];
    pad.extend_from_slice(&gg);
    num(&hh(&[&n, &pad]))
}
fn ref_x(user: &[u8], pass: &[u8], salt: &[u8]) -> u64 {
    let id = hh(&[user, b":", pass]);
    num(&hh(&[salt, &id]))
}

harnesses! {
    /// S01: both sides of an honest run accept and hold the same key
    fn s01_agree() {
        let g = group();
        let user = Buf::new(&[2, 0], "user");
        let pass = Buf::new(&[2], "pass");
        let salt = Buf::new(&[2, 0], "salt");
        let a = Buf::new(&[1, 2], "a");
        let b = Buf::new(&[1, 2], "b");
        let (za, zb, zv) = [(0, 0, 0), (1, 2, 1)][choose(0, 1, "zeros")];
        let c = SrpClient::<D>::new(&g.grp);
        let s = SrpServer::<D>::new(&g.grp);
        let v = padded(&c.compute_verifier(user.s(), pass.s(), salt.s()), zv);
        let a_pub = padded(&c.compute_public_ephemeral(a.s()), za);
        let b_pub = padded(&s.compute_public_ephemeral(b.s(), &v), zb);
        let cv = c.process_reply(a.s(), user.s(), pass.s(), salt.s(), &b_pub);
        let sv = s.process_reply(b.s(), &v, &a_pub);
        check(sv.is_ok(), "server takes an honest A");
        check(cv.is_ok() || num_mod(&b_pub, g.n) == 0, "client takes an honest B");
        if let (Ok(cv), Ok(sv)) = (cv, sv) {
            check(same(cv.key(), sv.key()), "keys agree");
            check(sv.verify_client(cv.proof()).is_ok(), "server accepts");
            check(cv.verify_server(sv.proof()).is_ok(), "client accepts");
            reach("agreed");
        }
    }

    /// S01 in the groups of RFC 5054
    fn s01_real() {
        let i = choose(0, 6, "real_group");
        match choose(0, 2, "digest") {
            0 => real_agree::<Ro<U64>>(i),
            1 => real_agree::<Ro<U32>>(i),
            _ => real_agree::<Ro<U20>>(i),
        }
    }
    /// S05, S02: the server's formulas in the groups of RFC 5054, for any received value
    fn s05_real_server() {
        let i = choose(0, 6, "real_group");
        match choose(0, 1, "digest") {
            0 => real_server::<Ro<U64>>(i),
            _ => real_server::<Ro<U20>>(i),
        }
    }
    /// S05, S02: the client's formulas in the groups of RFC 5054, for any received value
    fn s05_real_client() {
        let i = choose(0, 6, "real_group");
        match choose(0, 1, "digest") {
            0 => real_client::<Ro<U64>>(i),
            _ => real_client::<Ro<U20>>(i),
        }
    }
    /// S06 in the groups of RFC 5054
    fn s06_real() {
        let i = choose(0, 6, "real_group");
        let (n, g) = ref_group(i);
        let grp = real(i);
        let c = SrpClient::<D>::new(grp);
        let s = SrpServer::<D>::new(grp);
        let nl = REF[i].0.len();
        let big = |tag: &str, len: usize| BigUint::from_bytes_be(&wide(tag, len));
        let (lp, lk, la) = [(nl, 64, 32), (2 * nl, 20, nl), (nl + 9, 32, nl + 44)][choose(0, 2, "sizes")];
        let (p, k, x, u, e, v) = (big("pub", lp), big("k", lk), big("x", lk), big("u", lk), big("secret", la), big("v", nl));
        let base = (&p % &n + &n - &k * g.modpow(&x, &n) % &n) % &n;
        check(c.compute_premaster_secret(&p, &k, &x, &e, &u) == base.modpow(&(&e + &u * &x), &n), "client premaster secret");
        check(s.compute_premaster_secret(&p, &v, &u, &e) == (&p * v.modpow(&u, &n) % &n).modpow(&e, &n), "server premaster secret");
        check(s.compute_b_pub(&e, &k, &v) == (&k * &v + g.modpow(&e, &n)) % &n, "B = k*v + g^b mod N");
        check(c.compute_v(&x) == g.modpow(&x, &n), "v = g^x mod N");
        check(c.compute_a_pub(&e) == g.modpow(&e, &n), "A = g^a mod N");
        reach("done");
    }

    /// S02: the server refuses exactly the public values that are multiples of N
    fn s02_server() {
        let g = group();
        let s = SrpServer::<D>::new(&g.grp);
        let b = bytes::<1>("b");
        let v = bytes::<1>("v");
        let a_pub = Buf::new(&[1, 2, 0, 3, 9], "a_pub");
        let r = s.process_reply(&b, &v, a_pub.s());
        let zero = num_mod(a_pub.s(), g.n) == 0;
        check(r.is_ok() == !zero, "A accepted iff not a multiple of N");
        match r {
            Ok(_) => reach("accepted"),
            Err(e) => {
                reach("refused");
                check(e == SrpAuthError::IllegalParameter("a_pub".to_owned()), "server error names a_pub");
            }
        }
    }
    /// S02: the client refuses exactly the public values that are multiples of N
    fn s02_client() {
        let g = group();
        let c = SrpClient::<D>::new(&g.grp);
        let a = bytes::<1>("a");
        let (user, pass, salt) = (bytes::<1>("user"), bytes::<1>("pass"), bytes::<1>("salt"));
        let b_pub = Buf::new(&[1, 2, 0, 3, 9], "b_pub");
        let r = c.process_reply(&a, &user, &pass, &salt, b_pub.s());
        let zero = num_mod(b_pub.s(), g.n) == 0;
        check(r.is_ok() == !zero, "B accepted iff not a multiple of N");
        match r {
            Ok(_) => reach("accepted"),
            Err(e) => {
                reach("refused");
                check(e == SrpAuthError::IllegalParameter("b_pub".to_owned()), "client error names b_pub");
            }
        }
    }
    /// S02: multiples of the real moduli are refused by both sides
    fn s02_real() {
        let i = choose(0, 6, "real_group");
        let grp: &SrpGroup = real(i);
        let m = choose(0, 3, "multiple");
        let z = choose(0, 1, "zeros");
        let x = padded(&(&grp.n * BigUint::from(m)).to_bytes_be(), z);
        let s = SrpServer::<D>::new(grp);
        let c = SrpClient::<D>::new(grp);
        let v = bytes::<1>("v");
        let (user, pass, salt) = (bytes::<1>("user"), bytes::<1>("pass"), bytes::<1>("salt"));
        match s.process_reply(&[3], &v, &x) {
            Err(e) => check(e == SrpAuthError::IllegalParameter("a_pub".to_owned()), "server error names a_pub"),
            Ok(_) => check(false, "server refuses a multiple of a real N"),
        }
        match c.process_reply(&[3], &user, &pass, &salt, &x) {
            Err(e) => check(e == SrpAuthError::IllegalParameter("b_pub".to_owned()), "client error names b_pub"),
            Ok(_) => check(false, "client refuses a multiple of a real N"),
        }
        reach("refused");
    }

    /// S03: proofs are compared exactly, over their whole length
    fn s03_proofs() {
        type D32 = Ro<U32, { ro::SHORT }>;
        let grp = SrpGroup { n: BigUint::from(23u32), g: BigUint::from(5u32) };
        let c = SrpClient::<D32>::new(&grp);
        let s = SrpServer::<D32>::new(&grp);
        let (v, x) = ([3u8], [5u8]);
        let reply = Buf::new(&[32, 0, 1, 4, 16, 20, 31, 33, 64, 300], "reply");
        let mut m1 = [0u8; 32];
        let mut m2 = [0u8; 32];
        let xb = BigUint::from_bytes_be(&x).to_bytes_be();
        if let Ok(sv) = s.process_reply(&[2], &v, &x) {
            let bp = s.compute_public_ephemeral(&[2], &v);
            ro::hash(&[&xb, &bp, sv.key()], &mut m1);
            ro::hash(&[&xb, &m1, sv.key()], &mut m2);
            let r = sv.verify_client(reply.s());
            check(r.is_ok() == same(&m1, reply.s()), "client proof accepted iff exact");
            check(same(sv.proof(), &m2), "server proof");
            match r {
                Ok(()) => reach("client proof accepted"),
                Err(e) => {
                    check(e == SrpAuthError::BadRecordMac("client".to_owned()), "error names the client");
                    reach("client proof refused");
                }
            }
        }
        if let Ok(cv) = c.process_reply(&[2], &[1], &[2], &[3], &x) {
            let ap = c.compute_public_ephemeral(&[2]);
            ro::hash(&[&ap, &xb, cv.key()], &mut m1);
            ro::hash(&[&ap, &m1, cv.key()], &mut m2);
            let r = cv.verify_server(reply.s());
            check(r.is_ok() == same(&m2, reply.s()), "server proof accepted iff exact");
            check(same(cv.proof(), &m1), "client proof");
            match r {
                Ok(()) => reach("server proof accepted"),
                Err(e) => {
                    check(e == SrpAuthError::BadRecordMac("server".to_owned()), "error names the server");
                    reach("server proof refused");
                }
            }
        }
    }

    /// S04: an accepted proof means the same key and the same public values on both sides (collision-free hash)
    fn s04_binding() {
        let g = group();
        let c = SrpClient::<DJ>::new(&g.grp);
        let s = SrpServer::<DJ>::new(&g.grp);
        let a = bytes::<1>("a");
        let b = bytes::<1>("b");
        let v = bytes::<1>("v");
        let (user, pass, salt) = ([1u8], [2u8], bytes::<1>("salt"));
        let a_sent = c.compute_public_ephemeral(&a);
        let b_sent = s.compute_public_ephemeral(&b, &v);
        let a_got = bytes::<1>("a_got");
        let b_got = bytes::<1>("b_got");
        let (cv, sv) = match (c.process_reply(&a, &user, &pass, &salt, &b_got), s.process_reply(&b, &v, &a_got)) {
            (Ok(x), Ok(y)) => (x, y),
            _ => return,
        };
        match choose(0, 4, "claim") {
            0 => {
                if sv.verify_client(cv.proof()).is_ok() {
                    check(num(&a_got) == num(&a_sent) && num(&b_got) == num(&b_sent), "client proof accepted: same A and B");
                    check(same(cv.key(), sv.key()), "client proof accepted: same key");
                    reach("server accepted");
                    check(cv.verify_server(sv.proof()).is_ok(), "client then accepts the server");
                }
            }
            1 => {
                if cv.verify_server(sv.proof()).is_ok() {
                    check(num(&a_got) == num(&a_sent), "server proof accepted: same A");
                    check(same(cv.key(), sv.key()), "server proof accepted: same key");
                    check(sv.verify_client(cv.proof()).is_ok(), "server proof accepted: the server accepts this client");
                    reach("client accepted");
                }
            }
            2 => {
                let got = bytes::<2>("m1_got");
                if sv.verify_client(&got).is_ok() {
                    check(cv.verify_server(&got).is_err(), "a client proof is no server proof");
                    reach("some proof accepted");
                }
            }
            3 => check(sv.verify_client(sv.proof()).is_err(), "a reflected server proof is refused"),
            _ => check(cv.verify_server(cv.proof()).is_err(), "a reflected client proof is refused"),
        }
    }

    /// S04: equal proofs imply equal inputs, for values of the size of real groups (collision-free hash)
    fn s04_hashes() {
        let n = pick(&[1, 129, 300], "len");
        let mut buf = [[0u8; 300]; 6];
        for b in &mut buf {
            fill(&mut b[..n], "value");
        }
        let v: Vec<&[u8]> = buf.iter().map(|b| &b[..n]).collect();
        let (m, m2) = (compute_m1::<DJ>(v[0], v[1], v[2]), compute_m1::<DJ>(v[3], v[4], v[5]));
        if same(&m, &m2) {
            reach("equal client proofs");
            check(same(v[0], v[3]) & same(v[1], v[4]) & same(v[2], v[5]), "equal client proofs: same A, B and S");
        }
        let (k, k2) = (compute_m2::<DJ>(v[0], &m, v[2]), compute_m2::<DJ>(v[3], &m2, v[5]));
        if same(&k, &k2) {
            reach("equal server proofs");
            check(same(v[0], v[3]) & same(&m, &m2) & same(v[2], v[5]), "equal server proofs: same A, M1 and S");
        }
    }

    /// S04 in the groups of RFC 5054
    fn s04_real() {
        let (cv, sv, sent, got) = match real_pair() {
            Some(x) => x,
            None => return,
        };
        match choose(0, 1, "claim") {
            0 => {
                if sv.verify_client(cv.proof()).is_ok() {
                    check(same(&got.0, &sent.0) & same(&got.1, &sent.1), "client proof accepted: same A and B");
                    check(same(cv.key(), sv.key()), "client proof accepted: same key");
                    reach("server accepted");
                    check(cv.verify_server(sv.proof()).is_ok(), "client then accepts the server");
                }
            }
            _ => {
                check(sv.verify_client(sv.proof()).is_err(), "a reflected server proof is refused");
                check(cv.verify_server(cv.proof()).is_err(), "a reflected client proof is refused");
                reach("reflected");
            }
        }
    }
    fn s04_real_client() {
        let (cv, sv, sent, got) = match real_pair() {
            Some(x) => x,
            None => return,
        };
        if cv.verify_server(sv.proof()).is_ok() {
            check(same(&got.0, &sent.0), "server proof accepted: same A");
            check(same(cv.key(), sv.key()), "server proof accepted: same key");
            check(sv.verify_client(cv.proof()).is_ok(), "server proof accepted: the server accepts this client");
            reach("client accepted");
        }
    }

    /// S05: x, v, identity hash for arbitrary credentials
    fn s05_registration() {
        let g = group();
        let c = SrpClient::<D>::new(&g.grp);
        let user = Buf::new(&[3, 0, 300], "user");
        let pass = Buf::new(&[3, 0, 300], "pass");
        let salt = Buf::new(&[3, 0, 300], "salt");
        let id = SrpClient::<D>::compute_identity_hash(user.s(), pass.s());
        check(same(&id, &hh(&[user.s(), b":", pass.s()])), "identity hash");
        let x = SrpClient::<D>::compute_x(&id, salt.s());
        let rx = ref_x(user.s(), pass.s(), salt.s());
        check(val(&x) == rx, "x");
        let v = c.compute_verifier(user.s(), pass.s(), salt.s());
        check(num(&v) == pw(g.g, rx, g.n), "verifier");
        check(val(&c.compute_v(&x)) == pw(g.g, rx, g.n), "v");
        reach("done");
    }
    /// S05: u, m1, m2 over arbitrary strings
    fn s05_hashes() {
        let a = Buf::new(&[2, 0, 256, 300], "A");
        let b = Buf::new(&[2, 0, 256, 300], "B");
        let k = Buf::new(&[2, 0, 256, 300], "S");
        check(val(&compute_u::<D>(a.s(), b.s())) == num(&hh(&[a.s(), b.s()])), "u");
        let m1 = compute_m1::<D>(a.s(), b.s(), k.s());
        check(same(&m1, &hh(&[a.s(), b.s(), k.s()])), "M1");
        check(same(&compute_m2::<D>(a.s(), &m1, k.s()), &hh(&[a.s(), &m1, k.s()])), "M2");
        reach("done");
    }
    /// S05: server and client compute the keys and proofs of RFC 5054 from their inputs
    fn s05_server() {
        let g = group();
        let s = SrpServer::<D>::new(&g.grp);
        let b = Buf::new(&[1, 3], "b");
        let v = Buf::new(&[1], "v");
        let a_pub = Buf::new(&[1, 2], "a_pub");
        let bp = s.compute_public_ephemeral(b.s(), v.s());
        let rb = (ref_k(&g) * num(v.s()) % g.n + pw(g.g, num(b.s()), g.n)) % g.n;
        check(num(&bp) == rb, "B = k*v + g^b");
        check(bp.len() == enc(rb).len(), "B is encoded minimally");
        if let Ok(sv) = s.process_reply(b.s(), v.s(), a_pub.s()) {
            let u = num(&hh(&[&enc(num(a_pub.s())), &bp]));
            let key = pw(num(a_pub.s()) * pw(num(v.s()), u, g.n), num(b.s()), g.n);
            check(num(sv.key()) == key, "server premaster secret (A * v^u)^b");
            let m1 = hh(&[&enc(num(a_pub.s())), &bp, sv.key()]);
            let m2 = hh(&[&enc(num(a_pub.s())), &m1, sv.key()]);
            check(sv.verify_client(&m1).is_ok(), "server expects M1");
            check(same(sv.proof(), &m2), "server sends M2");
            reach("done");
        }
    }
    fn s05_client() {
        let g = group();
        let c = SrpClient::<D>::new(&g.grp);
        let a = Buf::new(&[1, 3], "a");
        let (user, pass, salt) = (bytes::<1>("user"), bytes::<1>("pass"), bytes::<1>("salt"));
        let b_pub = Buf::new(&[1, 2], "b_pub");
        let ap = c.compute_public_ephemeral(a.s());
        check(num(&ap) == pw(g.g, num(a.s()), g.n), "A = g^a");
        if let Ok(cv) = c.process_reply(a.s(), &user, &pass, &salt, b_pub.s()) {
            let u = num(&hh(&[&ap, &enc(num(b_pub.s()))]));
            let x = ref_x(&user, &pass, &salt);
            let t = ref_k(&g) * pw(g.g, x, g.n) % g.n;
            let base = (num(b_pub.s()) + g.n - t) % g.n;
            let key = symenv_pow2(base, u, x, num(a.s()), g.n);
            check(num(cv.key()) == key, "client premaster secret (B - k g^x)^(a + u x)");
            let m1 = hh(&[&ap, &enc(num(b_pub.s())), cv.key()]);
            let m2 = hh(&[&ap, &m1, cv.key()]);
            check(same(cv.proof(), &m1), "client sends M1");
            check(cv.verify_server(&m2).is_ok(), "client expects M2");
            reach("done");
        }
    }
    /// S06: the premaster secrets as functions of arbitrary integers (unreduced, B below k*g^x, zero exponents)
    fn s06_client() {
        let g = group();
        let c = SrpClient::<D>::new(&g.grp);
        let (b_pub, k, x, a, u) = (bytes::<2>("b_pub"), bytes::<2>("k"), bytes::<2>("x"), bytes::<2>("a"), bytes::<2>("u"));
        let big = |b: &[u8]| BigUint::from_bytes_be(b);
        let s = c.compute_premaster_secret(&big(&b_pub), &big(&k), &big(&x), &big(&a), &big(&u));
        let t = num(&k) % g.n * pw(g.g, num(&x), g.n) % g.n;
        let base = (num(&b_pub) + g.n - t) % g.n;
        check(val(&s) == symenv_pow2(base, num(&u), num(&x), num(&a), g.n), "client premaster secret");
        reach("done");
    }
    fn s06_server() {
        let g = group();
        let s = SrpServer::<D>::new(&g.grp);
        let (a_pub, v, u, b, k) = (bytes::<2>("a_pub"), bytes::<1>("v"), bytes::<2>("u"), bytes::<2>("b"), bytes::<2>("k"));
        let big = |b: &[u8]| BigUint::from_bytes_be(b);
        let r = s.compute_premaster_secret(&big(&a_pub), &big(&v), &big(&u), &big(&b));
        check(val(&r) == pw(num(&a_pub) * pw(num(&v), num(&u), g.n), num(&b), g.n), "server premaster secret");
        let bp = s.compute_b_pub(&big(&b), &big(&k), &big(&v));
        check(val(&bp) == (num(&k) * num(&v) % g.n + pw(g.g, num(&b), g.n)) % g.n, "B = k*v + g^b mod N");
        reach("done");
    }

    /// S07: the RFC 5054 groups, and k for them
    fn s07_groups() {
        let i = choose(0, 6, "real_group");
        let grp = real(i);
        let (n, gen) = REF[i];
        check(same(&grp.n.to_bytes_be(), n), "modulus of RFC 5054");
        check(grp.g == BigUint::from(gen), "generator of RFC 5054");
        let k = compute_k::<D>(grp);
        let mut pad = vec![0u8; n.len()];
        pad[n.len() - 1] = gen;
        check(val(&k) == num(&hh(&[n, &pad])), "k = H(N | PAD(g))");
        // registration and A for symbolic credentials below the modulus need no reduction: g^a for a < 8
        let a = choose(0, 7, "a");
        let c = SrpClient::<D>::new(grp);
        let mut e = 1u64;
        for _ in 0..a {
            e *= gen as u64;
        }
        check(c.compute_public_ephemeral(&[a as u8]) == enc(e), "A = g^a in a real group");
        reach("done");
    }
}
/// a symbolic byte string
fn wide(tag: &str, len: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    fill(&mut v, tag);
    v
}
fn ref_group(i: usize) -> (BigUint, BigUint) {
    (BigUint::from_bytes_be(REF[i].0), BigUint::from(REF[i].1))
}
fn ref_hash<D: Digest>(parts: &[&[u8]]) -> Vec<u8> {
    let mut o = vec![0; <D as Digest>::output_size()];
    ro::hash(parts, &mut o);
    o
}
fn ref_int<D: Digest>(parts: &[&[u8]]) -> BigUint {
    BigUint::from_bytes_be(&ref_hash::<D>(parts))
}
/// k of a real group
fn real_k<D: Digest>(i: usize) -> BigUint {
    let mut pad = vec![0u8; REF[i].0.len()];
    *pad.last_mut().unwrap() = REF[i].1;
    ref_int::<D>(&[REF[i].0, &pad])
}
/// lengths of user name, password, salt, a, b
const SIZES: [(usize, usize, usize, usize, usize); 3] = [(5, 8, 16, 64, 64), (0, 300, 32, 32, 300), (129, 1, 0, 256, 48)];

fn real_agree<D: Digest>(i: usize) {
    let grp = real(i);
    let (lu, lp, ls, la, lb) = SIZES[choose(0, 2, "sizes")];
    let (user, pass, salt) = (wide("user", lu), wide("pass", lp), wide("salt", ls));
    let (a, b) = (wide("a", la), wide("b", lb));
    let (za, zb, zv) = [(0, 0, 0), (1, 2, 1)][choose(0, 1, "zeros")];
    let c = SrpClient::<D>::new(grp);
    let s = SrpServer::<D>::new(grp);
    let v = padded(&c.compute_verifier(&user, &pass, &salt), zv);
    let a_pub = padded(&c.compute_public_ephemeral(&a), za);
    let b_pub = padded(&s.compute_public_ephemeral(&b, &v), zb);
    let cv = c.process_reply(&a, &user, &pass, &salt, &b_pub);
    let sv = s.process_reply(&b, &v, &a_pub);
    check(sv.is_ok(), "server takes an honest A");
    check(cv.is_ok() || BigUint::from_bytes_be(&b_pub) % ref_group(i).0 == BigUint::from(0u32), "client takes an honest B");
    if let (Ok(cv), Ok(sv)) = (cv, sv) {
        check(same(cv.key(), sv.key()), "keys agree");
        check(sv.verify_client(cv.proof()).is_ok(), "server accepts");
        check(cv.verify_server(sv.proof()).is_ok(), "client accepts");
        reach("agreed");
    }
}
type DI = Ro<U32, { ro::INJ }>;
type Pair = (Vec<u8>, Vec<u8>);
/// a client and a server that each got some number of the length of N; what each sent, what each got
fn real_pair() -> Option<(SrpClientVerifier<DI>, SrpServerVerifier<DI>, Pair, Pair)> {
    let i = choose(0, 6, "real_group");
    let nl = REF[i].0.len();
    let c = SrpClient::<DI>::new(real(i));
    let s = SrpServer::<DI>::new(real(i));
    let (a, b, v) = (wide("a", 32), wide("b", 32), wide("v", nl));
    let (user, pass, salt) = (wide("user", 3), wide("pass", 3), wide("salt", 3));
    let sent = (c.compute_public_ephemeral(&a), s.compute_public_ephemeral(&b, &v));
    let got = (wide("a_got", nl), wide("b_got", nl));
    assume(sent.0.len() == nl && sent.1.len() == nl && got.0[0] != 0 && got.1[0] != 0);
    match (c.process_reply(&a, &user, &pass, &salt, &got.1), s.process_reply(&b, &v, &got.0)) {
        (Ok(x), Ok(y)) => Some((x, y, sent, got)),
        _ => None,
    }
}
/// lengths of secret, received value beyond that of N, password and salt, user name
const RSIZES: [(usize, usize, usize, usize); 3] = [(64, 0, 16, 5), (300, 1, 300, 0), (32, 77, 1, 129)];

fn real_server<D: Digest>(i: usize) {
    let (n, g) = ref_group(i);
    let nl = REF[i].0.len();
    let s = SrpServer::<D>::new(real(i));
    let (lb, extra, _, _) = RSIZES[choose(0, 2, "sizes")];
    let (b, v, a_pub) = (wide("b", lb), wide("v", nl), wide("a_pub", nl + extra));
    let (bn, vn, an) = (BigUint::from_bytes_be(&b), BigUint::from_bytes_be(&v), BigUint::from_bytes_be(&a_pub));
    let bp = s.compute_public_ephemeral(&b, &v);
    check(bp == ((real_k::<D>(i) * &vn + g.modpow(&bn, &n)) % &n).to_bytes_be(), "B = k*v + g^b, minimal encoding");
    let zero = &an % &n == BigUint::from(0u32);
    let r = s.process_reply(&b, &v, &a_pub);
    check(r.is_ok() == !zero, "A accepted iff not a multiple of N");
    if let Ok(sv) = r {
        let ab = an.to_bytes_be();
        let u = ref_int::<D>(&[&ab, &bp]);
        let key = (&an * vn.modpow(&u, &n) % &n).modpow(&bn, &n);
        check(sv.key() == key.to_bytes_be(), "server premaster secret (A * v^u)^b");
        let m1 = ref_hash::<D>(&[&ab, &bp, sv.key()]);
        check(sv.verify_client(&m1).is_ok(), "server expects M1");
        check(same(sv.proof(), &ref_hash::<D>(&[&ab, &m1, sv.key()])), "server sends M2");
        reach("done");
    }
}
fn real_client<D: Digest>(i: usize) {
    let (n, g) = ref_group(i);
    let nl = REF[i].0.len();
    let c = SrpClient::<D>::new(real(i));
    let (la, extra, lp, lu) = RSIZES[choose(0, 2, "sizes")];
    let (a, b_pub) = (wide("a", la), wide("b_pub", nl + extra));
    let (user, pass, salt) = (wide("user", lu), wide("pass", lp), wide("salt", lp));
    let (an, bn) = (BigUint::from_bytes_be(&a), BigUint::from_bytes_be(&b_pub));
    let x = ref_int::<D>(&[&salt, &ref_hash::<D>(&[&user, b":", &pass])]);
    let ap = c.compute_public_ephemeral(&a);
    check(ap == g.modpow(&an, &n).to_bytes_be(), "A = g^a, minimal encoding");
    check(c.compute_verifier(&user, &pass, &salt) == g.modpow(&x, &n).to_bytes_be(), "v = g^x, minimal encoding");
    let zero = &bn % &n == BigUint::from(0u32);
    let r = c.process_reply(&a, &user, &pass, &salt, &b_pub);
    check(r.is_ok() == !zero, "B accepted iff not a multiple of N");
    if let Ok(cv) = r {
        let bb = bn.to_bytes_be();
        let u = ref_int::<D>(&[&ap, &bb]);
        let base = (&bn % &n + &n - real_k::<D>(i) * g.modpow(&x, &n) % &n) % &n;
        let key = base.modpow(&(&an + &u * &x), &n);
        check(cv.key() == key.to_bytes_be(), "client premaster secret (B - k g^x)^(a + u x)");
        let m1 = ref_hash::<D>(&[&ap, &bb, cv.key()]);
        check(same(cv.proof(), &m1), "client sends M1");
        check(cv.verify_server(&ref_hash::<D>(&[&ap, &m1, cv.key()])).is_ok(), "client expects M2");
        reach("done");
    }
}
/// b^(a + u*x) mod n without overflow of the exponent
fn symenv_pow2(b: u64, u: u64, x: u64, a: u64, n: u64) -> u64 {
    let e = u as u128 * x as u128 + a as u128;
    symenv::modpow(b % n, &[e as u64, (e >> 64) as u64], n)
}
const REF: [(&[u8], u8); 7] = [
    (include_bytes!("../ref/1024.bin"), 2),
    (include_bytes!("../ref/1536.bin"), 2),
    (include_bytes!("../ref/2048.bin"), 2),
    (include_bytes!("../ref/3072.bin"), 5),
    (include_bytes!("../ref/4096.bin"), 5),
    (include_bytes!("../ref/6144.bin"), 5),
    (include_bytes!("../ref/8192.bin"), 19),
];
fn real(i: usize) -> &'static SrpGroup {
    match i {
        0 => &G_1024,
        1 => &G_1536,
        2 => &G_2048,
        3 => &G_3072,
        4 => &G_4096,
        5 => &G_6144,
        _ => &G_8192,
    }
}
#[allow(unused)]
fn unused(_: SrpClientVerifier<D>, _: SrpServerVerifier<D>) {
    let _ = <D as Digest>::new;
    assume(true);
}
