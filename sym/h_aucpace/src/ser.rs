//! Serialisation of messages.
use super::*;
use serde::{Deserialize, Serialize};

pub const KN: usize = 16;
pub type Cm<'a> = ClientMessage<'a, KN>;
pub type Sm<'a> = ServerMessage<'a, KN>;
pub const SPACE: usize = 640;

/// Postcard or bincode.
#[derive(Clone, Copy, PartialEq)]
pub enum Fmt {
    Postcard,
    Bincode,
}
pub fn format() -> Fmt {
    if choose(0, 1, "format") == 0 {
        Fmt::Postcard
    } else {
        Fmt::Bincode
    }
}
pub fn write<T: Serialize>(f: Fmt, m: &T, out: &mut [u8; SPACE]) -> Option<usize> {
    match f {
        Fmt::Postcard => match postcard::to_slice(m, &mut out[..]) {
            Ok(s) => Some(s.len()),
            Err(_) => None,
        },
        Fmt::Bincode => {
            let mut w = &mut out[..];
            match bincode::serialize_into(&mut w, m) {
                Ok(()) => {
                    let left = w.len();
                    Some(SPACE - left)
                }
                Err(_) => None,
            }
        }
    }
}
pub fn read<'a, T: Deserialize<'a>>(f: Fmt, b: &'a [u8]) -> Option<T> {
    match f {
        Fmt::Postcard => match postcard::from_bytes(b) {
            Ok(m) => Some(m),
            Err(e) => {
                core::mem::forget(e);
                None
            }
        },
        Fmt::Bincode => match bincode::deserialize(b) {
            Ok(m) => Some(m),
            Err(e) => {
                core::mem::forget(e);
                None
            }
        },
    }
}
pub fn same_client(a: &Cm<'_>, b: &Cm<'_>) -> bool {
    match (a, b) {
        (Cm::Nonce(x), Cm::Nonce(y)) => same(x, y),
        (Cm::Username(x), Cm::Username(y)) => same(x, y),
        (Cm::StrongUsername { username: x, blinded: p }, Cm::StrongUsername { username: y, blinded: q }) => same(x, y) & (p == q),
        (Cm::PublicKey(x), Cm::PublicKey(y)) => x == y,
        (Cm::Authenticator(x), Cm::Authenticator(y)) => same(x, y),
        (
            Cm::Registration { username: u, salt: s, params: p, verifier: v },
            Cm::Registration { username: u2, salt: s2, params: p2, verifier: v2 },
        ) => same(u, u2) & same(s.as_str().as_bytes(), s2.as_str().as_bytes()) & same(p.as_str().as_bytes(), p2.as_str().as_bytes()) & (v == v2),
        (
            Cm::StrongRegistration { username: u, secret_exponent: s, params: p, verifier: v },
            Cm::StrongRegistration { username: u2, secret_exponent: s2, params: p2, verifier: v2 },
        ) => same(u, u2) & (s == s2) & same(p.as_str().as_bytes(), p2.as_str().as_bytes()) & (v == v2),
        _ => false,
    }
}
pub fn same_server(a: &Sm<'_>, b: &Sm<'_>) -> bool {
    match (a, b) {
        (Sm::Nonce(x), Sm::Nonce(y)) => same(x, y),
        (
            Sm::AugmentationInfo { group: g, x_pub: v, salt: s, pbkdf_params: p },
            Sm::AugmentationInfo { group: g2, x_pub: v2, salt: s2, pbkdf_params: p2 },
        ) => {
            same(g.as_bytes(), g2.as_bytes()) & same(s.as_str().as_bytes(), s2.as_str().as_bytes()) & same(p.as_str().as_bytes(), p2.as_str().as_bytes()) & (v == v2)
        }
        (
            Sm::StrongAugmentationInfo { group: g, x_pub: v, blinded_salt: s, pbkdf_params: p },
            Sm::StrongAugmentationInfo { group: g2, x_pub: v2, blinded_salt: s2, pbkdf_params: p2 },
        ) => same(g.as_bytes(), g2.as_bytes()) & (s == s2) & same(p.as_str().as_bytes(), p2.as_str().as_bytes()) & (v == v2),
        (Sm::PublicKey(x), Sm::PublicKey(y)) => x == y,
        (Sm::Authenticator(x), Sm::Authenticator(y)) => same(x, y),
        _ => false,
    }
}
/// salts of a registration and of an unknown user
pub fn any_salt(tag: &str) -> SaltString {
    if choose(0, 1, "salt_length") == 0 {
        SaltString::encode_b64(&bytes::<16>(tag)).unwrap()
    } else {
        SaltString::encode_b64(&bytes::<48>(tag)).unwrap()
    }
}
pub fn any_params(n: usize) -> ParamsString {
    match n {
        0 => ParamsString::default(),
        1 => "ln=17,r=8,p=1".parse().unwrap(),
        _ => "x=AZaz09.+-/".parse().unwrap(),
    }
}
/// the position of 32 known bytes
pub fn find(hay: &[u8], needle: &[u8]) -> usize {
    let mut i = 0;
    while i + needle.len() <= hay.len() {
        if symenv::known_same(&hay[i..i + needle.len()], needle) {
            return i;
        }
        i += 1;
    }
    usize::MAX
}
pub fn client_message<'a>(kind: usize, user: &'a [u8], p: RistrettoPoint, q: Scalar, salt: &SaltString, params: &ParamsString) -> Cm<'a> {
    match kind {
        0 => Cm::Nonce(bytes("nonce")),
        1 => Cm::Username(user),
        2 => Cm::StrongUsername { username: user, blinded: p },
        3 => Cm::PublicKey(p),
        4 => Cm::Authenticator(bytes("auth")),
        5 => Cm::Registration { username: user, salt: salt.clone(), params: params.clone(), verifier: p },
        _ => Cm::StrongRegistration { username: user, secret_exponent: q, params: params.clone(), verifier: p },
    }
}
pub fn server_message<'a>(kind: usize, group: &'a str, p: RistrettoPoint, q: RistrettoPoint, salt: &SaltString, params: &ParamsString) -> Sm<'a> {
    match kind {
        0 => Sm::Nonce(bytes("nonce")),
        1 => Sm::AugmentationInfo { group, x_pub: p, salt: salt.clone(), pbkdf_params: params.clone() },
        2 => Sm::StrongAugmentationInfo { group, x_pub: p, blinded_salt: q, pbkdf_params: params.clone() },
        3 => Sm::PublicKey(p),
        _ => Sm::Authenticator(bytes("auth")),
    }
}
/// is this what `SaltString` promises to be?
pub fn valid_salt(s: &[u8]) -> bool {
    if s.len() < 4 || s.len() > 64 {
        return false;
    }
    let mut ok = true;
    for c in s {
        let c = *c;
        ok &= ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9')) | (c == b'+') | (c == b'/') | (c == b'.') | (c == b'-');
    }
    ok
}
const USERS: [usize; 5] = [1, 0, 127, 128, 300];
fn has_user(kind: usize) -> bool {
    kind == 1 || kind == 2 || kind >= 5
}
/// a client message and its encoding; `user` is storage
pub fn honest_client<'a>(kind: usize, user: &'a mut Buf, lens: &[usize]) -> (Cm<'a>, RistrettoPoint, Scalar, SaltString) {
    if has_user(kind) {
        *user = Buf::new(lens, "user");
    }
    let p = any_params(if kind >= 5 { choose(0, 2, "params") } else { 0 });
    let salt = if kind == 5 { any_salt("salt") } else { SaltString::encode_b64(&[7; 16]).unwrap() };
    let (x, q) = (point("point"), scalar("q"));
    (client_message(kind, user.s(), x, q, &salt, &p), x, q, salt)
}
pub fn honest_server(kind: usize) -> (Sm<'static>, RistrettoPoint, RistrettoPoint, SaltString) {
    let p = any_params(if kind == 1 || kind == 2 { choose(0, 2, "params") } else { 0 });
    let salt = if kind == 1 { any_salt("salt") } else { SaltString::encode_b64(&[7; 16]).unwrap() };
    let (x, y) = (point("point"), point("point2"));
    (server_message(kind, "ristretto255", x, y, &salt, &p), x, y, salt)
}
pub fn client_round_trip() {
    let (f, kind) = (format(), choose(0, 6, "kind"));
    let mut user = Buf { b: [0; MAXLEN], n: 0 };
    let (m, _, _, _) = honest_client(kind, &mut user, &USERS);
    let mut out = [0; SPACE];
    match write(f, &m, &mut out) {
        Some(n) => match read::<Cm<'_>>(f, &out[..n]) {
            Some(m2) => {
                check(same_client(&m, &m2), "the decoded message is the encoded one");
                reach("decoded");
            }
            None => check(false, "the encoding is decoded"),
        },
        None => check(false, "the message is encoded"),
    }
}
pub fn server_round_trip() {
    let (f, kind) = (format(), choose(0, 4, "kind"));
    let (m, _, _, _) = honest_server(kind);
    let mut out = [0; SPACE];
    match write(f, &m, &mut out) {
        Some(n) => match read::<Sm<'_>>(f, &out[..n]) {
            Some(m2) => {
                check(same_server(&m, &m2), "the decoded message is the encoded one");
                reach("decoded");
            }
            None => check(false, "the encoding is decoded"),
        },
        None => check(false, "the message is encoded"),
    }
}
fn unpack(b: &[u8; 32]) -> Option<RistrettoPoint> {
    curve25519_dalek::ristretto::CompressedRistretto(*b).decompress()
}
/// the bytes of an element are replaced
pub fn client_elements() {
    let (f, kind) = (format(), [2, 3, 5, 6][choose(0, 3, "kind")]);
    let mut user = Buf { b: [0; MAXLEN], n: 0 };
    let (m, x, q, _) = honest_client(kind, &mut user, &[1]);
    let mut out = [0; SPACE];
    let n = match write(f, &m, &mut out) {
        Some(n) => n,
        None => return check(false, "the message is encoded"),
    };
    let arbitrary = bytes::<32>("arbitrary");
    // the two are told apart by their bytes
    symenv::assume(!same(&enc(&x), &q.to_bytes()));
    if kind == 6 && choose(0, 1, "scalar") == 1 {
        let pos = find(&out[..n], &q.to_bytes());
        if pos == usize::MAX {
            return symenv::unsupported("the scalar is not found in the message");
        }
        out[pos..pos + 32].copy_from_slice(&arbitrary);
        let expect: Option<Scalar> = Scalar::from_canonical_bytes(arbitrary).into();
        let got = read::<Cm<'_>>(f, &out[..n]);
        check(got.is_some() == expect.is_some(), "exactly canonical scalars are decoded");
        if let (Some(Cm::StrongRegistration { secret_exponent, .. }), Some(e)) = (got, expect) {
            check(secret_exponent == e, "the scalar is the one encoded");
            reach("decoded scalar");
        }
        return;
    }
    let pos = find(&out[..n], &enc(&x));
    if pos == usize::MAX {
        return symenv::unsupported("the element is not found in the message");
    }
    out[pos..pos + 32].copy_from_slice(&arbitrary);
    let expect = unpack(&arbitrary);
    let got = match read::<Cm<'_>>(f, &out[..n]) {
        Some(Cm::StrongUsername { blinded, .. }) => Some(blinded),
        Some(Cm::PublicKey(p)) => Some(p),
        Some(Cm::Registration { verifier, .. }) => Some(verifier),
        Some(Cm::StrongRegistration { verifier, .. }) => Some(verifier),
        Some(_) => return check(false, "the kind of the message is kept"),
        None => None,
    };
    check(got.is_some() == expect.is_some(), "exactly encodings of elements are decoded");
    match (got, expect) {
        (Some(p), Some(e)) => {
            check(p == e, "the element is the one encoded");
            reach("decoded");
        }
        _ => reach("refused"),
    }
}
pub fn server_elements() {
    let (f, kind) = (format(), choose(1, 3, "kind"));
    let (m, x, y, _) = honest_server(kind);
    let mut out = [0; SPACE];
    let n = match write(f, &m, &mut out) {
        Some(n) => n,
        None => return check(false, "the message is encoded"),
    };
    let arbitrary = bytes::<32>("arbitrary");
    // the two are told apart by their bytes
    symenv::assume(x != y);
    let second = kind == 2 && choose(0, 1, "second") == 1;
    let pos = find(&out[..n], &enc(if second { &y } else { &x }));
    if pos == usize::MAX {
        return symenv::unsupported("the element is not found in the message");
    }
    out[pos..pos + 32].copy_from_slice(&arbitrary);
    let expect = unpack(&arbitrary);
    let got = match read::<Sm<'_>>(f, &out[..n]) {
        Some(Sm::AugmentationInfo { x_pub, .. }) => Some(x_pub),
        Some(Sm::StrongAugmentationInfo { x_pub, blinded_salt, .. }) => Some(if second { blinded_salt } else { x_pub }),
        Some(Sm::PublicKey(p)) => Some(p),
        Some(_) => return check(false, "the kind of the message is kept"),
        None => None,
    };
    check(got.is_some() == expect.is_some(), "exactly encodings of elements are decoded");
    match (got, expect) {
        (Some(p), Some(e)) => {
            check(p == e, "the element is the one encoded");
            reach("decoded");
        }
        _ => reach("refused"),
    }
}
/// the characters of a salt or parameter string are replaced
pub fn strings() {
    let (f, server, in_params) = (format(), choose(0, 1, "server") == 1, choose(0, 1, "params") == 1);
    let (salt, params, n): (SaltString, ParamsString, usize) = if in_params {
        let n = pick(&[3, 5], "length");
        (SaltString::encode_b64(&[7; 16]).unwrap(), if n == 3 { "z=Z".parse().unwrap() } else { "zz=QQ".parse().unwrap() }, n)
    } else {
        let n = pick(&[22, 4, 64], "length");
        (SaltString::from_b64(&"QZVWXYHAtbcdefghijkmnopqrsuvwxyz0123456789QZVWXYHAtbcdefghijkmno"[..n]).unwrap(), ParamsString::default(), n)
    };
    let needle: &[u8] = if in_params { params.as_str().as_bytes() } else { salt.as_str().as_bytes() };
    let mut out = [0; SPACE];
    let n_all = if server {
        write(f, &server_message(1, "ristretto255", B, B, &salt, &params), &mut out)
    } else {
        write(f, &client_message(5, b"u", B, Scalar::ONE, &salt, &params), &mut out)
    };
    let n_all = match n_all {
        Some(n) => n,
        None => return check(false, "the message is encoded"),
    };
    let pos = find(&out[..n_all], needle);
    if pos == usize::MAX {
        return symenv::unsupported("the string is not found in the message");
    }
    let mut s = [0; 64];
    fill(&mut s[..n], "arbitrary");
    let s = &s[..n];
    out[pos..pos + n].copy_from_slice(s);
    let (gs, gp) = if server {
        match read::<Sm<'_>>(f, &out[..n_all]) {
            Some(Sm::AugmentationInfo { salt, pbkdf_params, .. }) => (salt, pbkdf_params),
            Some(_) => return check(false, "the kind of the message is kept"),
            None => return string_refused(in_params, s),
        }
    } else {
        match read::<Cm<'_>>(f, &out[..n_all]) {
            Some(Cm::Registration { salt, params, .. }) => (salt, params),
            Some(_) => return check(false, "the kind of the message is kept"),
            None => return string_refused(in_params, s),
        }
    };
    let got = if in_params { gp.as_str() } else { gs.as_str() };
    check(same(got.as_bytes(), s), "the string is the one encoded");
    check(in_params || valid_salt(s), "only valid salts are decoded");
    reach("decoded");
}
fn string_refused(in_params: bool, s: &[u8]) {
    if in_params {
        check(core::str::from_utf8(s).map_or(true, |s| s.parse::<ParamsString>().is_err()), "valid parameters are decoded");
    } else {
        check(!valid_salt(s), "valid salts are decoded");
    }
    reach("refused");
}
const BASE: [u8; 32] = [
    0xe2, 0xf2, 0xae, 0x0a, 0x6a, 0xbc, 0x4e, 0x71, 0xa8, 0x84, 0xa9, 0x61, 0xc5, 0x00, 0x51, 0x5f, 0x58, 0xe3, 0x0b, 0x6a, 0xa5, 0x82, 0xdd, 0x8d, 0xb6,
    0xa6, 0x59, 0x45, 0xe0, 0x8d, 0x2d, 0x76,
];
/// proper prefixes, and any byte replaced
pub fn damaged() {
    let (f, server) = (format(), choose(0, 1, "server") == 1);
    let kind = if server { choose(0, 4, "kind_server") } else { choose(0, 6, "kind_client") };
    let mut out = [0; SPACE];
    let p: ParamsString = "a=1".parse().unwrap();
    let salt = SaltString::encode_b64(&[7; 16]).unwrap();
    let n = if server {
        write(f, &server_message(kind, "ristretto255", B, B, &salt, &p), &mut out)
    } else {
        write(f, &client_message(kind, b"user", B, Scalar::ONE, &salt, &p), &mut out)
    };
    let n = match n {
        Some(n) => n,
        None => return check(false, "the message is encoded"),
    };
    // the encoding of the element is that of the real curve, of no known meaning in the model
    for _ in 0..2 {
        let pos = find(&out[..n], &enc(&B));
        if pos != usize::MAX {
            out[pos..pos + 32].copy_from_slice(&BASE);
        }
    }
    let at = choose(0, n as u64 - 1, "at");
    if choose(0, 1, "truncate") == 1 {
        let none = if server { read::<Sm<'_>>(f, &out[..at]).is_none() } else { read::<Cm<'_>>(f, &out[..at]).is_none() };
        check(none, "a proper prefix is not decoded");
        return reach("truncated");
    }
    let v = symenv::u8("byte");
    out[at] = v;
    // case split: lengths within the message become concrete
    let mut k = 0;
    while k <= n {
        if v == k as u8 {
            out[at] = k as u8;
            break;
        }
        k += 1;
    }
    if server {
        server_total(f, &out[..n]);
    } else {
        client_total(f, &out[..n]);
    }
    reach("replaced");
}
/// decoding gives a message that survives serialisation, or an error
fn client_total(f: Fmt, b: &[u8]) {
    if let Some(m) = read::<Cm<'_>>(f, b) {
        if let Cm::Registration { salt, .. } = &m {
            check(valid_salt(salt.as_str().as_bytes()), "only valid salts are decoded");
        }
        let mut out = [0; SPACE];
        match write(f, &m, &mut out) {
            Some(n) => match read::<Cm<'_>>(f, &out[..n]) {
                Some(m2) => check(same_client(&m, &m2), "the decoded message is the encoded one"),
                None => check(false, "the encoding is decoded"),
            },
            None => check(false, "the message is encoded"),
        }
        reach("decoded");
    }
}
fn server_total(f: Fmt, b: &[u8]) {
    if let Some(m) = read::<Sm<'_>>(f, b) {
        if let Sm::AugmentationInfo { salt, .. } = &m {
            check(valid_salt(salt.as_str().as_bytes()), "only valid salts are decoded");
        }
        let mut out = [0; SPACE];
        match write(f, &m, &mut out) {
            Some(n) => match read::<Sm<'_>>(f, &out[..n]) {
                Some(m2) => check(same_server(&m, &m2), "the decoded message is the encoded one"),
                None => check(false, "the encoding is decoded"),
            },
            None => check(false, "the message is encoded"),
        }
        reach("decoded");
    }
}
/// all short byte strings
pub fn arbitrary() {
    let (f, server) = (format(), choose(0, 1, "server") == 1);
    let mut b = [0; 16];
    let n = if f == Fmt::Postcard { choose(0, 6, "length") } else { choose(0, 14, "length_b") };
    fill(&mut b[..n], "message");
    if server {
        if let Some(m) = read::<ServerMessage<'_, 2>>(f, &b[..n]) {
            check(matches!(m, ServerMessage::Nonce(_)), "only nonces are that short");
            reach("decoded");
        }
    } else if let Some(m) = read::<ClientMessage<'_, 2>>(f, &b[..n]) {
        check(matches!(m, ClientMessage::Nonce(_) | ClientMessage::Username(_)), "only nonces and user names are that short");
        if let ClientMessage::Username(u) = m {
            check(u.len() <= n, "a user name is part of the message");
        }
        reach("decoded");
    }
    reach("done");
}
