//! Harnesses for the aucpace crate.  The hash is a random oracle of 64 bytes, the password hasher an uninterpreted
//! function (the code is generic over both).
use aucpace::client::*;
use aucpace::server::*;
use aucpace::{ClientMessage, Database, Error, PartialAugDatabase, ServerMessage, StrongDatabase};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as B;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::IsIdentity;
use digest::generic_array::typenum::U64;
use password_hash::{Decimal, Ident, Output, ParamsString, PasswordHash, PasswordHasher, Salt, SaltString};
use rand_core::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::rc::Rc;
use symenv::{bytes, check, choose, fill, harnesses, pick, reach, ro, ro::Ro, same};

mod ser;

type D = Ro<U64>;
/// collision-free
type DJ = Ro<U64, { ro::INJ }>;
const K1: usize = 16;
const MAXLEN: usize = 300;

/// a symbolic byte string of one of the given lengths
#[derive(Clone)]
struct Buf {
    b: [u8; MAXLEN],
    n: usize,
}
impl Buf {
    fn new(lens: &[usize], tag: &str) -> Self {
        Self::of(pick(lens, tag), tag)
    }
    fn of(n: usize, tag: &str) -> Self {
        let mut x = Buf { b: [0; MAXLEN], n };
        fill(&mut x.b[..x.n], tag);
        x
    }
    fn s(&self) -> &[u8] {
        &self.b[..self.n]
    }
}
/// Arbitrary output, except that of a draw of 64 bytes only the first is arbitrary and the others are zero: reduced
/// modulo the group order this reaches every scalar of the model.  All output is logged.
#[derive(Clone)]
struct Rng {
    tag: &'static str,
    /// draws of 64 bytes from this one on give no zero scalar
    nonzero: usize,
    draws: Rc<RefCell<usize>>,
    log: Rc<RefCell<Vec<u8>>>,
}
impl Rng {
    fn new(tag: &'static str) -> Self {
        Rng { tag, nonzero: usize::MAX, draws: Rc::new(RefCell::new(0)), log: Rc::new(RefCell::new(Vec::new())) }
    }
    /// at most one zero scalar
    fn blinding(tag: &'static str) -> Self {
        Rng { nonzero: 1, ..Self::new(tag) }
    }
    fn log(&self) -> Vec<u8> {
        self.log.borrow().clone()
    }
}
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if dest.len() == 64 {
            dest.fill(0);
            fill(&mut dest[..1], self.tag);
            if *self.draws.borrow() >= self.nonzero {
                symenv::assume((dest[0] != 0) & (dest[0] != 101) & (dest[0] != 202));
            }
            *self.draws.borrow_mut() += 1;
        } else {
            fill(dest, self.tag);
        }
        self.log.borrow_mut().extend_from_slice(dest);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Rng {}
/// any scalar
fn scalar(tag: &'static str) -> Scalar {
    Scalar::random(&mut Rng::new(tag))
}
/// any group element
fn point(tag: &'static str) -> RistrettoPoint {
    B * scalar(tag)
}

/// The password hasher: an uninterpreted function of password, salt and parameters.
#[derive(Clone, Copy)]
struct Ph {
    /// bytes of output; 0: no output; 255: an error
    size: usize,
}
#[derive(Clone, Copy, Debug)]
struct Pp {
    cost: u8,
    /// the parameters cannot be written down
    bad: bool,
}
impl Default for Pp {
    fn default() -> Self {
        Pp { cost: 7, bad: false }
    }
}
fn params(cost: u8) -> Pp {
    Pp { cost, bad: false }
}
impl TryFrom<&PasswordHash<'_>> for Pp {
    type Error = password_hash::Error;
    fn try_from(_: &PasswordHash<'_>) -> Result<Self, Self::Error> {
        Err(password_hash::Error::ParamNameInvalid)
    }
}
impl TryFrom<Pp> for ParamsString {
    type Error = password_hash::Error;
    fn try_from(p: Pp) -> Result<Self, Self::Error> {
        if p.bad {
            return Err(password_hash::Error::ParamsMaxExceeded);
        }
        let mut s = ParamsString::new();
        s.add_b64_bytes("c", &[p.cost])?;
        Ok(s)
    }
}
fn pbkdf(pw: &[u8], salt: &str, cost: u8, out: &mut [u8]) {
    let mut b = Vec::new();
    b.push(pw.len() as u8);
    b.push((pw.len() >> 8) as u8);
    b.extend_from_slice(pw);
    b.push(cost);
    b.extend_from_slice(salt.as_bytes());
    symenv::uf(40, &b, out);
}
impl PasswordHasher for Ph {
    type Params = Pp;
    fn hash_password_customized<'a>(
        &self,
        password: &[u8],
        algorithm: Option<Ident<'a>>,
        version: Option<Decimal>,
        params: Pp,
        salt: impl Into<Salt<'a>>,
    ) -> password_hash::Result<PasswordHash<'a>> {
        check(algorithm.is_none() && version.is_none(), "the hasher is asked for its default algorithm");
        let salt = salt.into();
        if self.size == 255 {
            return Err(password_hash::Error::Crypto);
        }
        let hash = if self.size == 0 {
            None
        } else {
            let mut o = [0; 64];
            pbkdf(password, salt.as_str(), params.cost, &mut o[..self.size]);
            Some(Output::new(&o[..self.size])?)
        };
        Ok(PasswordHash { algorithm: Ident::new_unwrap("ph"), version: None, params: ParamsString::new(), salt: Some(salt), hash })
    }
}
/// w of the protocol
fn ref_w(user: &[u8], pass: &[u8], salt: &str, cost: u8, size: usize) -> Scalar {
    let mut v = user.to_vec();
    v.push(b':');
    v.extend_from_slice(pass);
    let mut o = [0u8; 64];
    pbkdf(&v, salt, cost, &mut o[..size]);
    Scalar::from_bytes_mod_order_wide(&o)
}
type Hash = [u8; 64];
fn h<const M: u32>(n: u32, parts: &[&[u8]]) -> Hash {
    let mut o = [0; 64];
    let p = n.to_le_bytes();
    let mut v: Vec<&[u8]> = vec![&p];
    v.extend_from_slice(parts);
    ro::hash_as::<M>(&v, &mut o);
    o
}
fn h1_point(parts: &[&[u8]]) -> RistrettoPoint {
    RistrettoPoint::from_uniform_bytes(&h::<0>(1, parts))
}
fn enc(p: &RistrettoPoint) -> [u8; 32] {
    p.compress().to_bytes()
}

/// a database with at most one entry of each kind
#[derive(Clone, Default)]
struct Db {
    user: Vec<u8>,
    plain: Option<(RistrettoPoint, SaltString, ParamsString)>,
    strong: Option<(RistrettoPoint, Scalar, ParamsString)>,
    pair: Option<(Scalar, RistrettoPoint)>,
}
impl Database for Db {
    type PasswordVerifier = RistrettoPoint;
    fn lookup_verifier(&self, username: &[u8]) -> Option<(RistrettoPoint, SaltString, ParamsString)> {
        if same(&self.user, username) { self.plain.clone() } else { None }
    }
    fn store_verifier(&mut self, username: &[u8], salt: SaltString, _: Option<&[u8]>, verifier: RistrettoPoint, params: ParamsString) {
        self.user = username.to_vec();
        self.plain = Some((verifier, salt, params));
    }
}
impl StrongDatabase for Db {
    type PasswordVerifier = RistrettoPoint;
    type Exponent = Scalar;
    fn lookup_verifier_strong(&self, username: &[u8]) -> Option<(RistrettoPoint, Scalar, ParamsString)> {
        if same(&self.user, username) { self.strong.clone() } else { None }
    }
    fn store_verifier_strong(&mut self, username: &[u8], _: Option<&[u8]>, verifier: RistrettoPoint, q: Scalar, params: ParamsString) {
        self.user = username.to_vec();
        self.strong = Some((verifier, q, params));
    }
}
impl PartialAugDatabase for Db {
    type PrivateKey = Scalar;
    type PublicKey = RistrettoPoint;
    fn lookup_long_term_keypair(&self, username: &[u8]) -> Option<(Scalar, RistrettoPoint)> {
        if same(&self.user, username) { self.pair } else { None }
    }
    fn store_long_term_keypair(&mut self, _: &[u8], x: Scalar, x_pub: RistrettoPoint) -> aucpace::Result<()> {
        self.pair = Some((x, x_pub));
        Ok(())
    }
}
type Cl<DD> = AuCPaceClient<DD, Ph, Rng, K1>;
type Sv<DD> = AuCPaceServer<DD, Rng, K1>;

/// does the message hold this nonce?
fn cl_nonce<const K: usize>(m: &ClientMessage<'_, K>) -> [u8; K] {
    match m {
        ClientMessage::Nonce(n) => *n,
        _ => {
            check(false, "the client begins with a nonce");
            [0; K]
        }
    }
}
fn sv_nonce<const K: usize>(m: &ServerMessage<'_, K>) -> [u8; K] {
    match m {
        ServerMessage::Nonce(n) => *n,
        _ => {
            check(false, "the server begins with a nonce");
            [0; K]
        }
    }
}
fn cl_key(m: ClientMessage<'_, K1>) -> RistrettoPoint {
    match m {
        ClientMessage::PublicKey(p) => p,
        _ => {
            check(false, "the client sends its public key");
            B
        }
    }
}
fn sv_key(m: ServerMessage<'_, K1>) -> RistrettoPoint {
    match m {
        ServerMessage::PublicKey(p) => p,
        _ => {
            check(false, "the server sends its public key");
            B
        }
    }
}
fn cl_auth(m: ClientMessage<'_, K1>) -> Hash {
    match m {
        ClientMessage::Authenticator(a) => a,
        _ => {
            check(false, "the client sends an authenticator");
            [0; 64]
        }
    }
}
fn sv_auth(m: ServerMessage<'_, K1>) -> Hash {
    match m {
        ServerMessage::Authenticator(a) => a,
        _ => {
            check(false, "the server sends an authenticator");
            [0; 64]
        }
    }
}
/// augmentation info: x_pub, salt, parameters
fn sv_info(m: ServerMessage<'_, K1>) -> (RistrettoPoint, SaltString, ParamsString) {
    match m {
        ServerMessage::AugmentationInfo { group, x_pub, salt, pbkdf_params } => {
            check(group == "ristretto255", "the group is ristretto255");
            (x_pub, salt, pbkdf_params)
        }
        _ => {
            check(false, "the server sends augmentation info");
            (B, SaltString::encode_b64(&[0; 16]).unwrap(), ParamsString::new())
        }
    }
}
/// strong augmentation info: x_pub, blinded salt, parameters
fn sv_strong(m: ServerMessage<'_, K1>) -> (RistrettoPoint, RistrettoPoint, ParamsString) {
    match m {
        ServerMessage::StrongAugmentationInfo { group, x_pub, blinded_salt, pbkdf_params } => {
            check(group == "ristretto255", "the group is ristretto255");
            (x_pub, blinded_salt, pbkdf_params)
        }
        _ => {
            check(false, "the server sends strong augmentation info");
            (B, B, ParamsString::new())
        }
    }
}
fn illegal<T>(r: &aucpace::Result<T>) -> bool {
    matches!(r, Err(Error::IllegalPointError))
}

const BUF: usize = 601;
/// register with the plain protocol
fn register<DD>(c: &mut AuCPaceClient<DD, Ph, Rng, K1>, db: &mut Db, user: &[u8], pass: &[u8], cost: u8, ph: Ph, alloc: bool)
where
    DD: digest::Digest<OutputSize = U64> + Default,
{
    let m = if alloc {
        c.register_alloc(user, pass, params(cost), ph)
    } else {
        c.register::<_, BUF>(user, pass, params(cost), ph)
    };
    match m {
        Ok(ClientMessage::Registration { username, salt, params, verifier }) => {
            check(same(username, user), "registration names the user");
            db.store_verifier(username, salt, None, verifier, params);
        }
        _ => check(false, "registration succeeds"),
    }
}
fn register_strong<DD>(c: &mut AuCPaceClient<DD, Ph, Rng, K1>, db: &mut Db, user: &[u8], pass: &[u8], cost: u8, ph: Ph, alloc: bool)
where
    DD: digest::Digest<OutputSize = U64> + Default,
{
    let m = if alloc {
        c.register_alloc_strong(user, pass, params(cost), ph)
    } else {
        c.register_strong::<_, BUF>(user, pass, params(cost), ph)
    };
    match m {
        Ok(ClientMessage::StrongRegistration { username, secret_exponent, params, verifier }) => {
            check(same(username, user), "registration names the user");
            db.store_verifier_strong(username, None, verifier, secret_exponent, params);
        }
        _ => check(false, "registration succeeds"),
    }
}
/// agree on an ssid by nonces or by a given one
fn ssid<DD>(c: &mut AuCPaceClient<DD, Ph, Rng, K1>, s: &mut AuCPaceServer<DD, Rng, K1>, nonces: bool) -> (AuCPaceClientPreAug<DD, Ph, K1>, AuCPaceServerAugLayer<DD, K1>)
where
    DD: digest::Digest<OutputSize = U64> + Default,
{
    if nonces {
        let (s1, ms) = s.begin();
        let (c1, mc) = c.begin();
        (c1.agree_ssid(sv_nonce(&ms)), s1.agree_ssid(cl_nonce(&mc)))
    } else {
        let id = bytes::<16>("ssid");
        (c.begin_prestablished_ssid(&id).ok().unwrap(), s.begin_prestablished_ssid(&id).ok().unwrap())
    }
}
/// the substeps after the augmentation layer, between an implementation on each side; explicit or implicit
fn finish<DD>(c: AuCPaceClientCPaceSubstep<DD, K1>, s: AuCPaceServerCPaceSubstep<DD, Rng, K1>, ci: Buf, explicit: bool)
where
    DD: digest::Digest<OutputSize = U64> + Default,
{
    let (s, ms) = s.generate_public_key(ci.s());
    let (c, mc) = c.generate_public_key(ci.s(), &mut Rng::new("yb"));
    let (ys, yc) = (sv_key(ms), cl_key(mc));
    if explicit {
        let (c, s) = (c.receive_server_pubkey(ys), s.receive_client_pubkey(yc));
        check(c.is_ok() != ys.is_identity() && s.is_ok() != yc.is_identity(), "an honest public key is taken");
        if let (Ok((c, mc)), Ok(s)) = (c, s) {
            match s.receive_client_authenticator(cl_auth(mc)) {
                Ok((sk, ms)) => match c.receive_server_authenticator(sv_auth(ms)) {
                    Ok(ck) => {
                        check(same(&sk, &ck), "both sides hold the same key");
                        reach("agreed explicitly");
                    }
                    Err(_) => check(false, "the client accepts an honest server"),
                },
                Err(_) => check(false, "the server accepts an honest client"),
            }
        }
    } else {
        let (c, s) = (c.implicit_auth(ys), s.implicit_auth(yc));
        check(c.is_ok() != ys.is_identity() && s.is_ok() != yc.is_identity(), "an honest public key is taken");
        if let (Ok(ck), Ok(sk)) = (c, s) {
            check(same(&sk, &ck), "both sides hold the same key");
            reach("agreed implicitly");
        }
    }
}


// ------------------------------------------------------------------------------------------------ reference peers

/// The protocol from the session identifier on, computed from its description.
struct Ref<const M: u32> {
    ssid: Hash,
    g: RistrettoPoint,
    t: Scalar,
}
/// key confirmation of the server, of the client, session key
struct Keys {
    ta: Hash,
    tb: Hash,
    sk: Hash,
}
fn ref_ssid<const M: u32>(parts: &[&[u8]]) -> Hash {
    h::<M>(0, parts)
}
fn ref_gen<const M: u32>(ssid: &Hash, prs: &[u8; 32], ci: &[u8]) -> RistrettoPoint {
    RistrettoPoint::from_uniform_bytes(&h::<M>(1, &[ssid, prs, ci]))
}
impl<const M: u32> Ref<M> {
    fn new(ssid: Hash, prs: &[u8; 32], ci: &[u8], t: Scalar) -> Self {
        Ref { ssid, g: ref_gen::<M>(&ssid, prs, ci), t }
    }
    fn public(&self) -> RistrettoPoint {
        self.g * self.t
    }
    fn keys(&self, peer: RistrettoPoint) -> Keys {
        let sk1 = h::<M>(2, &[&self.ssid, &enc(&(peer * self.t))]);
        Keys { ta: h::<M>(3, &[&self.ssid, &sk1]), tb: h::<M>(4, &[&self.ssid, &sk1]), sk: h::<M>(5, &[&self.ssid, &sk1]) }
    }
}
/// z of the strong variant
fn ref_z(user: &[u8], pass: &[u8]) -> RistrettoPoint {
    h1_point(&[user, pass])
}
fn b64(p: &RistrettoPoint) -> SaltString {
    SaltString::encode_b64(&enc(p)).unwrap()
}
/// the PRS of a client that knows the password
fn ref_prs(x_pub: RistrettoPoint, user: &[u8], pass: &[u8], salt: &str, cost: u8, size: usize) -> [u8; 32] {
    enc(&(x_pub * ref_w(user, pass, salt, cost, size)))
}
fn salt16(tag: &str) -> SaltString {
    SaltString::encode_b64(&bytes::<16>(tag)).unwrap()
}
fn pstring(cost: u8) -> ParamsString {
    ParamsString::try_from(params(cost)).unwrap()
}
/// a client implementation up to its CPace step: session `id`, user "u", password `pass`, arbitrary salt
fn client_at_cpace<DD>(id: &[u8], user: &[u8], pass: &[u8], x_pub: RistrettoPoint, salt: &SaltString, cost: u8) -> Option<AuCPaceClientCPaceSubstep<DD, K1>>
where
    DD: digest::Digest<OutputSize = U64> + Default,
{
    let mut c = Cl::<DD>::new(Rng::new("client"));
    let (c, _) = c.begin_prestablished_ssid(id).ok()?.start_augmentation(user, pass);
    c.generate_cpace_alloc(x_pub, salt, params(cost), Ph { size: 64 }).ok()
}
/// a server implementation up to its CPace step; the registered verifier is `B w`; the second result is the PRS
fn server_at_cpace<DD>(id: &[u8], w: Scalar, salt: &SaltString, cost: u8) -> Option<(AuCPaceServerCPaceSubstep<DD, Rng, K1>, [u8; 32])>
where
    DD: digest::Digest<OutputSize = U64> + Default,
{
    let mut s = Sv::<DD>::new(Rng::new("server"));
    let mut db = Db::default();
    db.store_verifier(b"u", salt.clone(), None, B * w, pstring(cost));
    let (s, m) = s.begin_prestablished_ssid(id).ok()?.generate_client_info(b"u", &db, Rng::new("x"));
    let (x_pub, got, p) = sv_info(m);
    check(got.as_str() == salt.as_str() && p.as_str() == pstring(cost).as_str(), "the server sends the registered salt and parameters");
    Some((s, enc(&(x_pub * w))))
}
fn auth_fails<T>(r: &aucpace::Result<T>) -> bool {
    matches!(r, Err(Error::MutualAuthFail))
}
/// finish a client implementation against a reference server
fn client_against_ref<const M: u32, DD>(c: AuCPaceClientCPaceSubstep<DD, K1>, ssid: Hash, prs: &[u8; 32], ci: &[u8], explicit: bool)
where
    DD: digest::Digest<OutputSize = U64> + Default,
{
    let r = Ref::<M>::new(ssid, prs, ci, scalar("t"));
    let (c, m) = c.generate_public_key(ci, &mut Rng::new("y"));
    let k = r.keys(cl_key(m));
    if r.public().is_identity() {
        return;
    }
    if explicit {
        match c.receive_server_pubkey(r.public()) {
            Ok((c, m)) => {
                check(same(&cl_auth(m), &k.tb), "the client's authenticator");
                match c.receive_server_authenticator(k.ta) {
                    Ok(sk) => check(same(&sk, &k.sk), "the client's session key"),
                    Err(_) => check(false, "the client accepts the reference server"),
                }
            }
            Err(_) => check(false, "the client takes the reference server's public key"),
        }
    } else {
        match c.implicit_auth(r.public()) {
            Ok(sk) => check(same(&sk, &k.sk), "the client's session key"),
            Err(_) => check(false, "the client takes the reference server's public key"),
        }
    }
}
/// finish a server implementation against a reference client
fn server_against_ref<const M: u32, DD>(s: AuCPaceServerCPaceSubstep<DD, Rng, K1>, ssid: Hash, prs: &[u8; 32], ci: &[u8], explicit: bool)
where
    DD: digest::Digest<OutputSize = U64> + Default,
{
    let r = Ref::<M>::new(ssid, prs, ci, scalar("t"));
    let (s, m) = s.generate_public_key(ci);
    let k = r.keys(sv_key(m));
    if r.public().is_identity() {
        return;
    }
    if explicit {
        match s.receive_client_pubkey(r.public()) {
            Ok(s) => match s.receive_client_authenticator(k.tb) {
                Ok((sk, m)) => {
                    check(same(&sv_auth(m), &k.ta), "the server's authenticator");
                    check(same(&sk, &k.sk), "the server's session key");
                }
                Err(_) => check(false, "the server accepts the reference client"),
            },
            Err(_) => check(false, "the server takes the reference client's public key"),
        }
    } else {
        match s.implicit_auth(r.public()) {
            Ok(sk) => check(same(&sk, &k.sk), "the server's session key"),
            Err(_) => check(false, "the server takes the reference client's public key"),
        }
    }
}
const SSID_LENS: [usize; 10] = [16, 0, 1, 8, 15, 17, 32, 64, 65, 300];
/// registration or login with a buffer of N bytes
fn hash_with<const N: usize>(strong: bool, login: bool, user: &[u8], pass: &[u8], x_pub: RistrettoPoint, salt: &SaltString, p: Pp, ph: Ph) -> aucpace::Result<Outcome> {
    let mut c = Cl::<D>::new(Rng::new("client"));
    if login {
        let c = c.begin_prestablished_ssid([7; 16])?;
        let s = if strong {
            let (c, m) = c.start_augmentation_strong(user, pass, &mut Rng::blinding("r"));
            // the server's exponent is 3
            let blinded = strong_name(m, user);
            if N == ALLOC { c.generate_cpace_alloc(x_pub, blinded * Scalar::from(3u8), p, ph)? } else { c.generate_cpace::<N>(x_pub, blinded * Scalar::from(3u8), p, ph)? }
        } else {
            let (c, _) = c.start_augmentation(user, pass);
            if N == ALLOC { c.generate_cpace_alloc(x_pub, salt, p, ph)? } else { c.generate_cpace::<_, N>(x_pub, salt, p, ph)? }
        };
        return Ok(Outcome::Login(s));
    }
    let m = match (strong, N == ALLOC) {
        (false, true) => c.register_alloc(user, pass, p, ph)?,
        (false, false) => c.register::<_, N>(user, pass, p, ph)?,
        (true, true) => c.register_alloc_strong(user, pass, p, ph)?,
        (true, false) => c.register_strong::<_, N>(user, pass, p, ph)?,
    };
    Ok(match m {
        ClientMessage::Registration { username, salt, params, verifier } => {
            check(!strong && same(username, user), "registration names the user");
            Outcome::Registered(salt, params, verifier)
        }
        ClientMessage::StrongRegistration { username, secret_exponent, params, verifier } => {
            check(strong && same(username, user), "registration names the user");
            Outcome::Registered(b64(&(ref_z(user, pass) * secret_exponent)), params, verifier)
        }
        _ => Outcome::Other,
    })
}
/// stands for the allocating functions
const ALLOC: usize = 9999;
enum Outcome {
    Login(AuCPaceClientCPaceSubstep<D, K1>),
    Registered(SaltString, ParamsString, RistrettoPoint),
    Other,
}
fn strong_name(m: ClientMessage<'_, K1>, user: &[u8]) -> RistrettoPoint {
    match m {
        ClientMessage::StrongUsername { username, blinded } => {
            check(same(username, user), "the client sends the user name");
            blinded
        }
        _ => {
            check(false, "the client sends name and blinded point");
            B
        }
    }
}
/// the 64-byte draw as the scalar made of it
fn wide(b: &[u8]) -> Scalar {
    let mut a = [0; 64];
    a.copy_from_slice(b);
    Scalar::from_bytes_mod_order_wide(&a)
}

/// a scalar as it comes from a draw of 64 bytes
fn wide_draw(b: &[u8]) -> Scalar {
    struct R<'a>(&'a [u8]);
    impl RngCore for R<'_> {
        fn next_u32(&mut self) -> u32 {
            0
        }
        fn next_u64(&mut self) -> u64 {
            0
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            d.copy_from_slice(self.0)
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
            self.fill_bytes(d);
            Ok(())
        }
    }
    impl CryptoRng for R<'_> {}
    Scalar::random(&mut R(b))
}
/// the session identifier agreed on by nonces of K bytes
fn nonces<const K: usize>() {
    let peer = bytes::<K>("nonce");
    let (b, salt) = (scalar("t"), salt16("salt"));
    let (ss, key, k, public) = if choose(0, 1, "side") == 0 {
        let mut c = AuCPaceClient::<D, Ph, Rng, K>::new(Rng::new("client"));
        let (c, m) = c.begin();
        let ss = ref_ssid::<0>(&[&peer, &cl_nonce(&m)]);
        let (c, _) = c.agree_ssid(peer).start_augmentation(b"u", b"p");
        let c = match c.generate_cpace_alloc(B, &salt, params(1), Ph { size: 64 }) {
            Ok(c) => c,
            Err(_) => return check(false, "setup"),
        };
        let r = Ref::<0>::new(ss, &ref_prs(B, b"u", b"p", salt.as_str(), 1, 64), b"", b);
        let (c, m) = c.generate_public_key(b"", &mut Rng::new("y"));
        let y = match m {
            ClientMessage::PublicKey(y) => y,
            _ => return check(false, "the client sends its public key"),
        };
        (ss, c.implicit_auth(r.public()), r.keys(y).sk, r.public())
    } else {
        let w = scalar("w");
        let mut db = Db::default();
        db.store_verifier(b"u", salt, None, B * w, pstring(1));
        let mut s = AuCPaceServer::<D, Rng, K>::new(Rng::new("server"));
        let (s, m) = s.begin();
        let ss = ref_ssid::<0>(&[&sv_nonce(&m), &peer]);
        let (s, m) = s.agree_ssid(peer).generate_client_info(b"u", &db, Rng::new("x"));
        let x_pub = match m {
            ServerMessage::AugmentationInfo { x_pub, .. } => x_pub,
            _ => return check(false, "the server sends augmentation info"),
        };
        let r = Ref::<0>::new(ss, &enc(&(x_pub * w)), b"", b);
        let (s, m) = s.generate_public_key(b"");
        let y = match m {
            ServerMessage::PublicKey(y) => y,
            _ => return check(false, "the server sends its public key"),
        };
        (ss, s.implicit_auth(r.public()), r.keys(y).sk, r.public())
    };
    let _ = ss;
    check(key.is_ok() != public.is_identity(), "the reference peer is accepted");
    if let Ok(key) = key {
        check(same(&key, &k), "the session identifier is the hash of the server's and the client's nonce");
        reach("keys");
    }
}
/// the rest of a session with an unknown user: the PRS is 32 bytes freshly drawn
fn unknown_tail(s: AuCPaceServerCPaceSubstep<D, Rng, K1>, x: &Rng, ss: Hash) {
    let log = x.log();
    let (s, m) = s.generate_public_key(b"ci");
    let l2 = x.log();
    check(log.len() >= 32 && l2.len() >= log.len() + 64, "a password-related string and a key are drawn");
    let y = wide_draw(&l2[log.len()..log.len() + 64]);
    let ys = sv_key(m);
    let mut fresh = false;
    let mut i = 0;
    while i + 32 <= log.len() {
        let mut prs = [0; 32];
        prs.copy_from_slice(&log[i..i + 32]);
        fresh |= ys == ref_gen::<0>(&ss, &prs, b"ci") * y;
        i += 32;
    }
    check(fresh, "the password-related string is freshly drawn");
    let yc = point("yc");
    let explicit = choose(0, 1, "explicit") == 1;
    let r = if explicit {
        match s.receive_client_pubkey(yc) {
            Ok(s) => {
                let _ = s.receive_client_authenticator(bytes::<64>("got"));
                true
            }
            Err(_) => false,
        }
    } else {
        s.implicit_auth(yc).is_ok()
    };
    check(r != yc.is_identity(), "a public key is taken");
}

fn fresh_nonces<const K: usize>() {
    let rng = Rng::new("client");
    let mut c = AuCPaceClient::<D, Ph, Rng, K>::new(rng.clone());
    for _ in 0..2 {
        let a = rng.log().len();
        let (_, m) = c.begin();
        check(same(rng.log().get(a..a + K).unwrap_or_default(), &cl_nonce(&m)), "the client nonce is what was drawn");
    }
    let rng = Rng::new("server");
    let mut s = AuCPaceServer::<D, Rng, K>::new(rng.clone());
    for _ in 0..2 {
        let a = rng.log().len();
        let (_, m) = s.begin();
        check(same(rng.log().get(a..a + K).unwrap_or_default(), &sv_nonce(&m)), "the server nonce is what was drawn");
    }
}
/// lengths of user name, password and channel identifier
const CREDS: [(usize, usize, usize); 10] = [
    (1, 1, 1),
    (300, 300, 300),
    (0, 0, 0),
    (0, 1, 40),
    (1, 0, 1),
    (3, 12, 3),
    (33, 33, 33),
    (65, 65, 65),
    (129, 129, 129),
    (256, 255, 257),
];
fn creds() -> (Buf, Buf, Buf) {
    let l = CREDS[choose(0, CREDS.len() as u64 - 1, "creds")];
    (Buf::of(l.0, "user"), Buf::of(l.1, "pass"), Buf::of(l.2, "ci"))
}
/// lengths of session and channel identifiers on the two sides
const SHAPES: [(usize, usize, usize, usize); 14] = [
    (16, 16, 1, 1),
    (300, 300, 300, 300),
    (16, 17, 1, 1),
    (16, 16, 1, 0),
    (16, 16, 0, 1),
    (17, 16, 0, 1),
    (16, 17, 1, 0),
    (64, 65, 65, 64),
    (16, 16, 0, 0),
    (17, 17, 3, 3),
    (33, 33, 33, 33),
    (65, 65, 65, 65),
    (129, 129, 129, 129),
    (128, 256, 256, 128),
];

harnesses! {
    /// A01: honest client and server agree, plain protocol and partial augmentation
    fn a01_agree() {
        let (user, pass, ci) = creds();
        let cost = symenv::u8("cost");
        let ph = Ph { size: pick(&[32, 64], "size") };
        let alloc = choose(0, 1, "alloc") == 1;
        let partial = choose(0, 1, "partial") == 1;
        let mut db = Db::default();
        let mut c = Cl::<D>::new(Rng::new("client"));
        let mut s = Sv::<D>::new(Rng::new("server"));
        register(&mut c, &mut db, user.s(), pass.s(), cost, ph, alloc);
        let (c, sl) = ssid(&mut c, &mut s, choose(0, 1, "nonces") == 1);
        let (c, m) = c.start_augmentation(user.s(), pass.s());
        let name = match m {
            ClientMessage::Username(u) => u,
            _ => return check(false, "the client sends the user name"),
        };
        check(same(name, user.s()), "the client sends the user name");
        let (sv, m) = if partial {
            let (x, x_pub) = s.generate_long_term_keypair();
            check(db.store_long_term_keypair(name, x, x_pub).is_ok(), "stored");
            sl.generate_client_info_partial_aug(name, &db, Rng::new("x"))
        } else {
            sl.generate_client_info(name, &db, Rng::new("x"))
        };
        let (x_pub, salt, p) = sv_info(m);
        check(p.as_str() == ParamsString::try_from(params(cost)).unwrap().as_str(), "the server sends the registered parameters");
        let r = if alloc {
            c.generate_cpace_alloc(x_pub, &salt, params(cost), ph)
        } else {
            c.generate_cpace::<_, BUF>(x_pub, &salt, params(cost), ph)
        };
        check(r.is_ok() != x_pub.is_identity(), "the client takes honest augmentation info");
        if let Ok(c) = r {
            finish(c, sv, ci, choose(0, 1, "explicit") == 1);
        }
    }

    /// A01: the strong variant, with and without partial augmentation
    fn a01_strong() {
        let (user, pass, ci) = creds();
        let cost = symenv::u8("cost");
        let ph = Ph { size: pick(&[32, 64], "size") };
        let alloc = choose(0, 1, "alloc") == 1;
        let partial = choose(0, 1, "partial") == 1;
        let mut db = Db::default();
        let mut c = Cl::<D>::new(Rng::new("client"));
        let mut s = Sv::<D>::new(Rng::new("server"));
        register_strong(&mut c, &mut db, user.s(), pass.s(), cost, ph, alloc);
        let (c, sl) = ssid(&mut c, &mut s, choose(0, 1, "nonces") == 1);
        let (c, m) = c.start_augmentation_strong(user.s(), pass.s(), &mut Rng::blinding("r"));
        let blinded = strong_name(m, user.s());
        let q = db.strong.as_ref().map(|x| x.1).unwrap();
        let r = if partial {
            let (x, x_pub) = s.generate_long_term_keypair();
            check(db.store_long_term_keypair(user.s(), x, x_pub).is_ok(), "stored");
            sl.generate_client_info_partial_strong(user.s(), blinded, &db, Rng::new("x"))
        } else {
            sl.generate_client_info_strong(user.s(), blinded, &db, Rng::new("x"))
        };
        check(r.is_ok() != (blinded * q).is_identity(), "the server takes an honest blinded point");
        if let Ok((sv, m)) = r {
            let (x_pub, salt, p) = sv_strong(m);
            check(p.as_str() == pstring(cost).as_str(), "the server sends the registered parameters");
            let r = if alloc { c.generate_cpace_alloc(x_pub, salt, params(cost), ph) } else { c.generate_cpace::<BUF>(x_pub, salt, params(cost), ph) };
            check(r.is_ok() != x_pub.is_identity(), "the client takes honest augmentation info");
            if let Ok(c) = r {
                finish(c, sv, ci, choose(0, 1, "explicit") == 1);
            }
        }
    }

    /// A02: the client's augmentation step refuses exactly neutral elements
    fn a02_client_info() {
        let (strong, alloc) = (choose(0, 1, "strong") == 1, choose(0, 1, "alloc") == 1);
        let ph = Ph { size: 64 };
        let (x_pub, blinded) = (point("x_pub"), point("blinded_salt"));
        let mut c = Cl::<D>::new(Rng::new("client"));
        let c = match c.begin_prestablished_ssid([7; 16]) {
            Ok(c) => c,
            Err(_) => return check(false, "an ssid of 16 bytes is accepted"),
        };
        let (r, bad) = if strong {
            let (c, _) = c.start_augmentation_strong(b"u", b"p", &mut Rng::blinding("r"));
            let r = if alloc { c.generate_cpace_alloc(x_pub, blinded, params(1), ph) } else { c.generate_cpace::<BUF>(x_pub, blinded, params(1), ph) };
            (r, x_pub.is_identity() | blinded.is_identity())
        } else {
            let salt = salt16("salt");
            let (c, _) = c.start_augmentation(b"u", b"p");
            let r = if alloc { c.generate_cpace_alloc(x_pub, &salt, params(1), ph) } else { c.generate_cpace::<_, BUF>(x_pub, &salt, params(1), ph) };
            (r, x_pub.is_identity())
        };
        check(illegal(&r) == bad, "augmentation info is refused as illegal iff it holds a neutral element");
        check(r.is_ok() == !bad, "other augmentation info is taken");
        if bad {
            reach("refused");
        } else {
            reach("taken");
        }
    }
    /// A02: ephemeral public keys
    fn a02_public_keys() {
        let key = point("key");
        let explicit = choose(0, 1, "explicit") == 1;
        let (bad, ok) = if choose(0, 1, "side") == 0 {
            let salt = salt16("salt");
        let c = match client_at_cpace::<D>(&[7; 16], b"u", b"p", B, &salt, 1) {
                Some(c) => c,
                None => return check(false, "setup"),
            };
            let (c, _) = c.generate_public_key(b"c", &mut Rng::new("y"));
            if explicit {
                let r = c.receive_server_pubkey(key);
                (illegal(&r), r.is_ok())
            } else {
                let r = c.implicit_auth(key);
                (illegal(&r), r.is_ok())
            }
        } else {
            let (s, _) = match server_at_cpace::<D>(&[7; 16], scalar("w"), &salt16("salt"), 1) {
                Some(s) => s,
                None => return check(false, "setup"),
            };
            let (s, _) = s.generate_public_key(b"c");
            if explicit {
                let r = s.receive_client_pubkey(key);
                (illegal(&r), r.is_ok())
            } else {
                let r = s.implicit_auth(key);
                (illegal(&r), r.is_ok())
            }
        };
        check(bad == key.is_identity(), "a public key is refused as illegal iff it is neutral");
        check(ok != key.is_identity(), "any other public key is taken");
        if ok {
            reach("taken");
        } else {
            reach("refused");
        }
    }
    /// A02: the blinded point received by a strong server, for registered and unknown users
    fn a02_server_strong() {
        let blinded = point("blinded");
        let (known, partial, pair) = (choose(0, 1, "known") == 1, choose(0, 1, "partial") == 1, choose(0, 1, "pair") == 1);
        let q = scalar("q");
        let mut db = Db { user: b"u".to_vec(), ..Db::default() };
        if known {
            db.store_verifier_strong(b"u", None, point("w"), q, pstring(1));
        }
        if pair {
            db.pair = Some((scalar("lx"), point("lxp")));
        }
        let srng = Rng::new("server");
        let mut s = Sv::<D>::new(srng.clone());
        let secret = srng.log();
        let s = match s.begin_prestablished_ssid([7; 16]) {
            Ok(s) => s,
            Err(_) => return check(false, "an ssid of 16 bytes is accepted"),
        };
        let r = if partial {
            s.generate_client_info_partial_strong(b"u", blinded, &db, Rng::new("x"))
        } else {
            s.generate_client_info_strong(b"u", blinded, &db, Rng::new("x"))
        };
        let q = if known && (pair || !partial) {
            q
        } else {
            let mut o = [0; 64];
            ro::hash(&[&secret, b"u"], &mut o);
            wide(&o)
        };
        let bad = (blinded * q).is_identity();
        check(illegal(&r) == bad, "a blinded point is refused as illegal iff its multiple is neutral");
        check(r.is_ok() == !bad, "any other blinded point is taken");
        if bad {
            reach("refused");
        } else {
            reach("taken");
        }
    }

    /// A03: a client accepts exactly the expected authenticator
    fn a03_client() {
        let (id, salt) = (bytes::<16>("ssid"), salt16("salt"));
        let c = match client_at_cpace::<D>(&id, b"u", b"p", B, &salt, 1) {
            Some(c) => c,
            None => return check(false, "setup"),
        };
        let r = Ref::<0>::new(ref_ssid::<0>(&[&id]), &ref_prs(B, b"u", b"p", salt.as_str(), 1, 64), b"c", scalar("t"));
        let (c, m) = c.generate_public_key(b"c", &mut Rng::new("y"));
        let k = r.keys(cl_key(m));
        let ys = r.public();
        if ys.is_identity() {
            return;
        }
        match c.receive_server_pubkey(ys) {
            Ok((c, m)) => {
                check(same(&cl_auth(m), &k.tb), "the client's authenticator");
                let got = bytes::<64>("got");
                let honest = same(&got, &k.ta);
                let r = c.receive_server_authenticator(got);
                check(r.is_ok() == honest, "the client accepts exactly the expected authenticator");
                check(auth_fails(&r) != honest, "any other is refused with a mutual authentication error");
                if let Ok(sk) = r {
                    check(same(&sk, &k.sk), "the session key");
                    reach("accepted");
                } else {
                    reach("refused");
                }
            }
            Err(_) => check(false, "the client takes the public key"),
        }
    }
    /// A03: a server accepts exactly the expected authenticator and only then reveals its own
    fn a03_server() {
        let (id, salt) = (bytes::<16>("ssid"), salt16("salt"));
        let (s, prs) = match server_at_cpace::<D>(&id, scalar("w"), &salt, 1) {
            Some(s) => s,
            None => return check(false, "setup"),
        };
        let r = Ref::<0>::new(ref_ssid::<0>(&[&id]), &prs, b"c", scalar("t"));
        let (s, m) = s.generate_public_key(b"c");
        let k = r.keys(sv_key(m));
        let yc = r.public();
        if yc.is_identity() {
            return;
        }
        match s.receive_client_pubkey(yc) {
            Ok(s) => {
                let got = bytes::<64>("got");
                let honest = same(&got, &k.tb);
                let r = s.receive_client_authenticator(got);
                check(r.is_ok() == honest, "the server accepts exactly the expected authenticator");
                check(auth_fails(&r) != honest, "any other is refused with a mutual authentication error");
                if let Ok((sk, m)) = r {
                    check(same(&sv_auth(m), &k.ta), "the server's authenticator");
                    check(same(&sk, &k.sk), "the session key");
                    reach("accepted");
                } else {
                    reach("refused");
                }
            }
            Err(_) => check(false, "the server takes the public key"),
        }
    }

    /// A04: explicit authentication succeeds only between the same session, password and channel
    fn a04_binding() {
        // 0: public keys are delivered unchanged; otherwise one is replaced, and all else is the same on both sides
        let mitm = choose(0, 2, "mitm");
        let l = SHAPES[choose(0, SHAPES.len() as u64 - 1, "shape")];
        let (id, ci, salt) = (Buf::of(l.0, "id"), Buf::of(l.2, "ci"), salt16("salt"));
        let (id2, ci2, w) = if mitm == 0 {
            (Buf::of(l.1, "id2"), Buf::of(l.3, "ci2"), scalar("w"))
        } else {
            (id.clone(), ci.clone(), ref_w(b"u", b"p", salt.as_str(), 1, 64))
        };
        let mut s = Sv::<DJ>::new(Rng::new("server"));
        let mut db = Db::default();
        db.store_verifier(b"u", salt.clone(), None, B * w, pstring(1));
        let (s, x_pub) = match s.begin_prestablished_ssid(id2.s()) {
            Ok(s) => {
                let (s, m) = s.generate_client_info(b"u", &db, Rng::new("x"));
                (s, sv_info(m).0)
            }
            Err(_) => return check(false, "setup"),
        };
        if x_pub.is_identity() {
            return;
        }
        let prs2 = enc(&(x_pub * w));
        let c = match client_at_cpace::<DJ>(id.s(), b"u", b"p", x_pub, &salt, 1) {
            Some(c) => c,
            None => return check(false, "setup"),
        };
        let prs = ref_prs(x_pub, b"u", b"p", salt.as_str(), 1, 64);
        let (ss, ss2) = (ref_ssid::<{ ro::INJ }>(&[id.s()]), ref_ssid::<{ ro::INJ }>(&[id2.s()]));
        let (g, g2) = (ref_gen::<{ ro::INJ }>(&ss, &prs, ci.s()), ref_gen::<{ ro::INJ }>(&ss2, &prs2, ci2.s()));
        let same_run = same(id.s(), id2.s()) & same(&prs, &prs2) & same(ci.s(), ci2.s());
        // the group of the model is so small that generators collide
        symenv::assume(same_run | (g != g2));
        let (c, m) = c.generate_public_key(ci.s(), &mut Rng::new("y"));
        let yc = cl_key(m);
        let (s, m) = s.generate_public_key(ci2.s());
        let ys = sv_key(m);
        let to_s = if mitm == 1 { point("mitm") } else { yc };
        let to_c = if mitm == 2 { point("mitm") } else { ys };
        let unchanged = (to_s == yc) & (to_c == ys);
        if yc.is_identity() | ys.is_identity() | g.is_identity() | g2.is_identity() {
            return;
        }
        let (c, s) = match (c.receive_server_pubkey(to_c), s.receive_client_pubkey(to_s)) {
            (Ok((c, m)), Ok(s)) => ((c, cl_auth(m)), s),
            _ => return,
        };
        let (c, tb) = c;
        if choose(0, 1, "reflect") == 1 {
            // the client is given its own authenticator
            return check(auth_fails(&c.receive_server_authenticator(tb)), "a reflected authenticator is refused");
        }
        match s.receive_client_authenticator(tb) {
            Ok((sk, m)) => {
                check(same_run, "the server accepts only the same session, password and channel");
                check(unchanged, "the server accepts only unchanged public keys");
                match c.receive_server_authenticator(sv_auth(m)) {
                    Ok(ck) => check(same(&sk, &ck), "both sides hold the same key"),
                    Err(_) => check(false, "then the client accepts too"),
                }
                reach("accepted");
            }
            Err(_) => {
                check(!(same_run & unchanged), "an honest client is accepted");
                reach("refused");
            }
        }
    }
    /// A04: implicit authentication: equal keys only in the same run
    fn a04_implicit() {
        let l = SHAPES[choose(0, SHAPES.len() as u64 - 1, "shape")];
        let (id, id2) = (Buf::of(l.0, "id"), Buf::of(l.1, "id2"));
        let (ci, ci2) = (Buf::of(l.2, "ci"), Buf::of(l.3, "ci2"));
        let salt = salt16("salt");
        let (s, prs2) = match server_at_cpace::<DJ>(id2.s(), scalar("w"), &salt, 1) {
            Some(s) => s,
            None => return check(false, "setup"),
        };
        // here the PRS of the client is that of an unrelated augmentation key
        let x_pub = point("xp");
        if x_pub.is_identity() {
            return;
        }
        let c = match client_at_cpace::<DJ>(id.s(), b"u", b"p", x_pub, &salt, 1) {
            Some(c) => c,
            None => return check(false, "setup"),
        };
        let prs = ref_prs(x_pub, b"u", b"p", salt.as_str(), 1, 64);
        let (ss, ss2) = (ref_ssid::<{ ro::INJ }>(&[id.s()]), ref_ssid::<{ ro::INJ }>(&[id2.s()]));
        let (g, g2) = (ref_gen::<{ ro::INJ }>(&ss, &prs, ci.s()), ref_gen::<{ ro::INJ }>(&ss2, &prs2, ci2.s()));
        let same_run = same(id.s(), id2.s()) & same(&prs, &prs2) & same(ci.s(), ci2.s());
        symenv::assume(same_run | (g != g2));
        let (c, m) = c.generate_public_key(ci.s(), &mut Rng::new("y"));
        let yc = cl_key(m);
        let (s, m) = s.generate_public_key(ci2.s());
        let ys = sv_key(m);
        if yc.is_identity() | ys.is_identity() | g.is_identity() | g2.is_identity() {
            return;
        }
        match (c.implicit_auth(ys), s.implicit_auth(yc)) {
            (Ok(ck), Ok(sk)) => {
                check(same(&ck, &sk) == same_run, "the keys are equal iff session, password and channel are");
                reach("keys");
            }
            _ => check(false, "public keys that are not neutral are taken"),
        }
    }

    /// A05: prestablished session identifiers
    fn a05_prestablished() {
        let id = Buf::new(&SSID_LENS, "id");
        let explicit = choose(0, 1, "explicit") == 1;
        let salt = salt16("salt");
        if choose(0, 1, "side") == 0 {
            let mut c = Cl::<D>::new(Rng::new("client"));
            let r = c.begin_prestablished_ssid(id.s());
            check(r.is_ok() == (id.n >= 16), "an identifier is accepted iff it has at least 16 bytes");
            match r {
                Ok(c) => {
                    let (c, _) = c.start_augmentation(b"u", b"p");
                    match c.generate_cpace_alloc(B, &salt, params(1), Ph { size: 64 }) {
                        Ok(c) => client_against_ref::<0, D>(c, ref_ssid::<0>(&[id.s()]), &ref_prs(B, b"u", b"p", salt.as_str(), 1, 64), b"ci", explicit),
                        Err(_) => check(false, "setup"),
                    }
                    reach("accepted");
                }
                Err(e) => {
                    check(matches!(e, Error::InsecureSsid), "a short identifier is insecure");
                    reach("refused");
                }
            }
        } else {
            let mut s = Sv::<D>::new(Rng::new("server"));
            let r = s.begin_prestablished_ssid(id.s());
            check(r.is_ok() == (id.n >= 16), "an identifier is accepted iff it has at least 16 bytes");
            match r {
                Ok(_) => {
                    match server_at_cpace::<D>(id.s(), scalar("w"), &salt, 1) {
                        Some((s, prs)) => server_against_ref::<0, D>(s, ref_ssid::<0>(&[id.s()]), &prs, b"ci", explicit),
                        None => check(false, "setup"),
                    }
                    reach("accepted");
                }
                Err(e) => {
                    check(matches!(e, Error::InsecureSsid), "a short identifier is insecure");
                    reach("refused");
                }
            }
        }
    }
    /// A05: the identifier agreed on line
    fn a05_nonces() {
        match choose(0, 3, "nonce") {
            0 => nonces::<16>(),
            1 => nonces::<1>(),
            2 => nonces::<33>(),
            _ => nonces::<129>(),
        }
    }

    /// A06: what an unknown user is told
    fn a06_unknown() {
        let user = Buf::new(&[1, 0, 5, 300], "user");
        let known = bytes::<2>("known");
        let (partial, pair) = (choose(0, 1, "partial") == 1, choose(0, 1, "pair") == 1);
        let mut db = Db::default();
        db.store_verifier(&known, salt16("salt"), None, point("v"), pstring(3));
        if pair {
            db.user = user.s().to_vec();
            db.plain = None;
            db.pair = Some((scalar("lx"), point("lxp")));
        }
        let srng = Rng::new("server");
        let mut s = Sv::<D>::new(srng.clone());
        let secret = srng.log();
        check(secret.len() >= 8, "the server has a secret of at least 64 bits");
        let mut first: Option<SaltString> = None;
        for round in 0..2 {
            let (s, mc) = s.begin();
            let sn = sv_nonce(&mc);
            let cn = bytes::<K1>("nonce");
            let s = s.agree_ssid(cn);
            let x = Rng::new("x");
            let (s, m) = if partial {
                s.generate_client_info_partial_aug(user.s(), &db, x.clone())
            } else {
                s.generate_client_info(user.s(), &db, x.clone())
            };
            let (x_pub, salt, p) = sv_info(m);
            if partial && pair {
                check(Some(x_pub) == db.pair.map(|p| p.1), "the stored public key is announced");
            }
            let mut o = [0; 64];
            ro::hash(&[&secret, user.s()], &mut o);
            check(salt.as_str() == SaltString::encode_b64(&o[..48]).unwrap().as_str(), "the salt is a hash of the secret and the user name");
            if let Some(f) = &first {
                check(f.as_str() == salt.as_str(), "a repeated request gets the same salt");
            }
            first = Some(salt);
            check(p.as_str() == ParamsString::default().as_str(), "the parameters are the default ones");
            if round == 1 {
                unknown_tail(s, &x, ref_ssid::<0>(&[&sn, &cn]));
                reach("second request");
            }
        }
    }
    /// A06: the same in the strong variant
    fn a06_unknown_strong() {
        let user = Buf::new(&[1, 0, 5, 300], "user");
        let known = bytes::<2>("known");
        let (partial, pair) = (choose(0, 1, "partial") == 1, choose(0, 1, "pair") == 1);
        let mut db = Db::default();
        db.store_verifier_strong(&known, None, point("v"), scalar("q"), pstring(3));
        if pair {
            db.user = user.s().to_vec();
            db.strong = None;
            db.pair = Some((scalar("lx"), point("lxp")));
        }
        let srng = Rng::new("server");
        let mut s = Sv::<D>::new(srng.clone());
        let secret = srng.log();
        for round in 0..2 {
            let (s, mc) = s.begin();
            let sn = sv_nonce(&mc);
            let cn = bytes::<K1>("nonce");
            let s = s.agree_ssid(cn);
            let x = Rng::new("x");
            let blinded = point("blinded");
            let r = if partial {
                s.generate_client_info_partial_strong(user.s(), blinded, &db, x.clone())
            } else {
                s.generate_client_info_strong(user.s(), blinded, &db, x.clone())
            };
            let mut o = [0; 64];
            ro::hash(&[&secret, user.s()], &mut o);
            let expect = blinded * wide(&o);
            check(r.is_ok() != expect.is_identity(), "the request is answered unless the point is neutral");
            if let Ok((s, m)) = r {
                let (x_pub, salt, p) = sv_strong(m);
                if partial && pair {
                    check(Some(x_pub) == db.pair.map(|p| p.1), "the stored public key is announced");
                }
                check(salt == expect, "the exponent is a hash of the secret and the user name");
                check(p.as_str() == ParamsString::default().as_str(), "the parameters are the default ones");
                if round == 1 {
                    unknown_tail(s, &x, ref_ssid::<0>(&[&sn, &cn]));
                    reach("second request");
                }
            } else {
                return;
            }
        }
    }

    /// A07: what is hashed, and every failure
    fn a07_hashing() {
        let user = Buf::new(&[1, 0, 3, 14, 15, 99], "user");
        let pass = Buf::new(&[1, 0, 2, 13, 14, 15, 98], "pass");
        let (strong, login) = (choose(0, 1, "strong") == 1, choose(0, 1, "login") == 1);
        let ph = Ph { size: [64, 32, 0, 10, 31, 33, 63, 255][choose(0, 7, "size")] };
        let cost = symenv::u8("cost");
        let bad = !login && choose(0, 1, "bad") == 1;
        let p = Pp { cost, bad };
        let salt = salt16("salt");
        let x_pub = point("x_pub");
        if x_pub.is_identity() || (strong && ref_z(user.s(), pass.s()).is_identity()) {
            return;
        }
        let (n, r) = match choose(0, 5, "buffer") {
            0 => (16, hash_with::<16>(strong, login, user.s(), pass.s(), x_pub, &salt, p, ph)),
            1 => (0, hash_with::<0>(strong, login, user.s(), pass.s(), x_pub, &salt, p, ph)),
            2 => (1, hash_with::<1>(strong, login, user.s(), pass.s(), x_pub, &salt, p, ph)),
            3 => (100, hash_with::<100>(strong, login, user.s(), pass.s(), x_pub, &salt, p, ph)),
            4 => (5, hash_with::<5>(strong, login, user.s(), pass.s(), x_pub, &salt, p, ph)),
            _ => (ALLOC, hash_with::<ALLOC>(strong, login, user.s(), pass.s(), x_pub, &salt, p, ph)),
        };
        let long = n < user.n + pass.n + 1;
        match r {
            Err(Error::UsernameOrPasswordTooLong) => {
                check(long, "only too long credentials are too long");
                reach("too long");
            }
            Err(Error::HashEmpty) => {
                check(!long && ph.size == 0, "only a missing hash is missing");
                reach("missing hash");
            }
            Err(Error::HashSizeInvalid) => {
                check(!long && (ph.size != 32) & (ph.size != 64) & (ph.size != 0) & (ph.size != 255), "only a hash of another size is invalid");
                reach("invalid size");
            }
            Err(Error::PasswordHashing(password_hash::Error::Crypto)) => {
                check(!long && ph.size == 255, "an error of the hasher is passed on");
                reach("hasher error");
            }
            Err(Error::PasswordHashing(password_hash::Error::ParamsMaxExceeded)) => {
                check(!long && bad, "an error of the parameters is passed on");
                reach("parameter error");
            }
            Err(_) => check(false, "there are no other errors"),
            Ok(o) => {
                check(!long && !bad && (ph.size == 32 || ph.size == 64), "only good hashes succeed");
                match o {
                    Outcome::Login(c) => {
                        let s = if strong { b64(&(ref_z(user.s(), pass.s()) * Scalar::from(3u8))) } else { salt };
                        let prs = ref_prs(x_pub, user.s(), pass.s(), s.as_str(), cost, ph.size);
                        client_against_ref::<0, D>(c, ref_ssid::<0>(&[&[7; 16]]), &prs, b"", false);
                        reach("logged in");
                    }
                    Outcome::Registered(s, ps, v) => {
                        check(ps.as_str() == pstring(cost).as_str(), "the parameters are those given");
                        check(v == B * ref_w(user.s(), pass.s(), s.as_str(), cost, ph.size), "the verifier is that of the hash");
                        reach("registered");
                    }
                    Outcome::Other => check(false, "registration gives a registration message"),
                }
            }
        }
    }

    /// A08: a client against the reference server
    fn a08_client() {
        let (user, pass, ci) = creds();
        let (cost, salt, x_pub) = (symenv::u8("cost"), salt16("salt"), point("x_pub"));
        let ph = Ph { size: pick(&[64, 32], "size") };
        let strong = choose(0, 1, "strong") == 1;
        let mut c = Cl::<D>::new(Rng::new("client"));
        let (c, ss) = if choose(0, 1, "nonces") == 1 {
            let sn = bytes::<K1>("nonce");
            let (c, m) = c.begin();
            let cn = cl_nonce(&m);
            (c.agree_ssid(sn), ref_ssid::<0>(&[&sn, &cn]))
        } else {
            let id = bytes::<20>("id");
            match c.begin_prestablished_ssid(id) {
                Ok(c) => (c, ref_ssid::<0>(&[&id])),
                Err(_) => return check(false, "an ssid of 20 bytes is accepted"),
            }
        };
        let (c, salt) = if strong {
            let q = scalar("q");
            let (c, m) = c.start_augmentation_strong(user.s(), pass.s(), &mut Rng::blinding("r"));
            let blinded = strong_name(m, user.s()) * q;
            let bad = blinded.is_identity() | x_pub.is_identity();
            let r = c.generate_cpace_alloc(x_pub, blinded, params(cost), ph);
            check(r.is_ok() != bad, "the client takes augmentation info without neutral elements");
            match r {
                Ok(c) => (c, b64(&(ref_z(user.s(), pass.s()) * q))),
                Err(_) => return,
            }
        } else {
            let (c, _) = c.start_augmentation(user.s(), pass.s());
            let r = c.generate_cpace_alloc(x_pub, &salt, params(cost), ph);
            check(r.is_ok() != x_pub.is_identity(), "the client takes augmentation info without neutral elements");
            match r {
                Ok(c) => (c, salt),
                Err(_) => return,
            }
        };
        let prs = ref_prs(x_pub, user.s(), pass.s(), salt.as_str(), cost, ph.size);
        client_against_ref::<0, D>(c, ss, &prs, ci.s(), choose(0, 1, "explicit") == 1);
        reach("done");
    }
    /// A08: a server against the reference client
    fn a08_server() {
        let (user, _, ci) = creds();
        let (cost, salt, w, q) = (symenv::u8("cost"), salt16("salt"), scalar("w"), scalar("q"));
        let strong = choose(0, 1, "strong") == 1;
        let mut s = Sv::<D>::new(Rng::new("server"));
        let mut db = Db::default();
        db.store_verifier(user.s(), salt.clone(), None, B * w, pstring(cost));
        db.store_verifier_strong(user.s(), None, B * w, q, pstring(cost));
        let (s, ss) = if choose(0, 1, "nonces") == 1 {
            let cn = bytes::<K1>("nonce");
            let (s, m) = s.begin();
            let sn = sv_nonce(&m);
            (s.agree_ssid(cn), ref_ssid::<0>(&[&sn, &cn]))
        } else {
            let id = bytes::<20>("id");
            match s.begin_prestablished_ssid(id) {
                Ok(c) => (c, ref_ssid::<0>(&[&id])),
                Err(_) => return check(false, "an ssid of 20 bytes is accepted"),
            }
        };
        let (s, x_pub) = if strong {
            let blinded = point("blinded");
            let r = s.generate_client_info_strong(user.s(), blinded, &db, Rng::new("x"));
            check(r.is_ok() != (blinded * q).is_identity(), "the server takes a point without a neutral multiple");
            match r {
                Ok((s, m)) => {
                    let (x_pub, bs, p) = sv_strong(m);
                    check(bs == blinded * q, "the server exponentiates the blinded point");
                    check(p.as_str() == pstring(cost).as_str(), "the parameters are those registered");
                    (s, x_pub)
                }
                Err(_) => return,
            }
        } else {
            let (s, m) = s.generate_client_info(user.s(), &db, Rng::new("x"));
            let (x_pub, sl, p) = sv_info(m);
            check(sl.as_str() == salt.as_str() && p.as_str() == pstring(cost).as_str(), "salt and parameters are those registered");
            (s, x_pub)
        };
        server_against_ref::<0, D>(s, ss, &enc(&(x_pub * w)), ci.s(), choose(0, 1, "explicit") == 1);
        reach("done");
    }

    /// A09: the stored pair is used as it is
    fn a09_partial() {
        let user = Buf::new(&[1, 0, 3, 300], "user");
        let (x, x_pub, w, q) = (scalar("lx"), point("lxp"), scalar("w"), scalar("q"));
        let (strong, explicit) = (choose(0, 1, "strong") == 1, choose(0, 1, "explicit") == 1);
        let salt = salt16("salt");
        let mut db = Db::default();
        db.store_verifier(user.s(), salt.clone(), None, B * w, pstring(9));
        db.store_verifier_strong(user.s(), None, B * w, q, pstring(9));
        db.pair = Some((x, x_pub));
        let id = bytes::<16>("id");
        let mut s = Sv::<D>::new(Rng::new("server"));
        let s = match s.begin_prestablished_ssid(id) {
            Ok(s) => s,
            Err(_) => return check(false, "setup"),
        };
        let (s, announced) = if strong {
            let blinded = point("blinded");
            match s.generate_client_info_partial_strong(user.s(), blinded, &db, Rng::new("x")) {
                Ok((s, m)) => {
                    let (p, bs, ps) = sv_strong(m);
                    check(bs == blinded * q, "the server exponentiates the blinded point");
                    check(ps.as_str() == pstring(9).as_str(), "the parameters are those registered");
                    (s, p)
                }
                Err(_) => return check((blinded * q).is_identity(), "only neutral multiples are refused"),
            }
        } else {
            let (s, m) = s.generate_client_info_partial_aug(user.s(), &db, Rng::new("x"));
            let (p, sl, ps) = sv_info(m);
            check(sl.as_str() == salt.as_str() && ps.as_str() == pstring(9).as_str(), "salt and parameters are those registered");
            (s, p)
        };
        check(announced == x_pub, "the server announces the stored public key");
        server_against_ref::<0, D>(s, ref_ssid::<0>(&[&id]), &enc(&(B * w * x)), b"ci", explicit);
        check(db.pair == Some((x, x_pub)), "the stored pair is unchanged");
        reach("done");
    }
    /// A09: long-term pairs
    fn a09_keypair() {
        let mut s = Sv::<D>::new(Rng::new("server"));
        let (x, x_pub) = s.generate_long_term_keypair();
        let (x2, x_pub2) = s.generate_long_term_keypair();
        check(x_pub == B * x && x_pub2 == B * x2, "the public key belongs to the private one");
        reach("pair");
    }

    /// A10: registration and login use the same salt
    fn a10_oprf() {
        let (user, pass, _) = creds();
        let cost = symenv::u8("cost");
        let alloc = choose(0, 1, "alloc") == 1;
        let ph = Ph { size: 64 };
        let mut c = Cl::<D>::new(Rng::new("client"));
        let mut db = Db::default();
        register_strong(&mut c, &mut db, user.s(), pass.s(), cost, ph, alloc);
        let (v, q) = match &db.strong {
            Some((v, q, _)) => (*v, *q),
            None => return check(false, "registered"),
        };
        let z = ref_z(user.s(), pass.s());
        let salt = b64(&(z * q));
        check(v == B * ref_w(user.s(), pass.s(), salt.as_str(), cost, 64), "registration uses the salt");
        // any point: the reply of the server is believed
        let rlog = Rng::blinding("r");
        let id = bytes::<16>("id");
        let c = match c.begin_prestablished_ssid(id) {
            Ok(c) => c,
            Err(_) => return check(false, "setup"),
        };
        let (c, m) = c.start_augmentation_strong(user.s(), pass.s(), &mut rlog.clone());
        let blinded = strong_name(m, user.s());
        check(blinded.is_identity() == z.is_identity(), "the blinding value is not zero");
        let log = rlog.log();
        check(log.len() >= 64 && blinded == z * wide_draw(&log[log.len() - 64..]), "the server sees the blinded point");
        let x_pub = point("x_pub");
        let reply = blinded * q;
        let r = if alloc { c.generate_cpace_alloc(x_pub, reply, params(cost), ph) } else { c.generate_cpace::<BUF>(x_pub, reply, params(cost), ph) };
        check(r.is_ok() != (x_pub.is_identity() | reply.is_identity()), "an honest reply is taken");
        if let Ok(c) = r {
            let prs = ref_prs(x_pub, user.s(), pass.s(), salt.as_str(), cost, 64);
            client_against_ref::<0, D>(c, ref_ssid::<0>(&[&id]), &prs, b"", false);
            reach("done");
        }
    }

    /// A12: nonces of other lengths
    fn a12_nonces() {
        match choose(0, 4, "nonce") {
            0 => fresh_nonces::<16>(),
            1 => fresh_nonces::<1>(),
            2 => fresh_nonces::<8>(),
            3 => fresh_nonces::<33>(),
            _ => fresh_nonces::<129>(),
        }
        reach("done");
    }
    /// A12: what is drawn when
    fn a12_client() {
        let rng = Rng::new("client");
        let mut c = Cl::<D>::new(rng.clone());
        let n0 = rng.log().len();
        for _ in 0..2 {
            let a = rng.log().len();
            let (_, m) = c.begin();
            let log = rng.log();
            check(log.len() >= a + K1, "a nonce is drawn for each session");
            check(same(&log[a..a + K1], &cl_nonce(&m)), "the nonce is what was drawn");
        }
        // registration
        let ph = Ph { size: 64 };
        let alloc = choose(0, 1, "alloc") == 1;
        let mut db = Db::default();
        for _ in 0..2 {
            let a = rng.log().len();
            register(&mut c, &mut db, b"u", b"p", 1, ph, alloc);
            let log = rng.log();
            check(log.len() >= a + 16, "a salt is drawn for each registration");
            if let Some((_, s, _)) = &db.plain {
                check(s.as_str() == SaltString::encode_b64(&log[a..a + 16]).unwrap().as_str(), "the salt is what was drawn");
            }
            let a = rng.log().len();
            register_strong(&mut c, &mut db, b"u", b"p", 1, ph, alloc);
            let log = rng.log();
            check(log.len() >= a + 64, "an exponent is drawn for each registration");
            if let Some((_, q, _)) = &db.strong {
                check(*q == wide_draw(&log[a..a + 64]), "the exponent is what was drawn");
            }
        }
        check(n0 <= 64, "nothing else is drawn");
        // the ephemeral key of a session
        let salt = salt16("salt");
        let c = match client_at_cpace::<D>(&[7; 16], b"u", b"p", B, &salt, 1) {
            Some(c) => c,
            None => return check(false, "setup"),
        };
        let y = Rng::new("y");
        let (_, m) = c.generate_public_key(b"ci", &mut y.clone());
        let log = y.log();
        let g = ref_gen::<0>(&ref_ssid::<0>(&[&[7; 16]]), &ref_prs(B, b"u", b"p", salt.as_str(), 1, 64), b"ci");
        check(log.len() >= 64 && cl_key(m) == g * wide_draw(&log[..64]), "the ephemeral key is what was drawn");
        reach("done");
    }
    /// A12: what a server draws
    fn a12_server() {
        let rng = Rng::new("server");
        let mut s = Sv::<D>::new(rng.clone());
        for _ in 0..2 {
            let a = rng.log().len();
            let (_, m) = s.begin();
            let log = rng.log();
            check(log.len() >= a + K1, "a nonce is drawn for each session");
            check(same(&log[a..a + K1], &sv_nonce(&m)), "the nonce is what was drawn");
        }
        for _ in 0..2 {
            let a = rng.log().len();
            let (x, _) = s.generate_long_term_keypair();
            let log = rng.log();
            check(log.len() >= a + 64 && x == wide_draw(&log[a..a + 64]), "a long-term key is what was drawn");
        }
        let id = bytes::<16>("id");
        let s = match s.begin_prestablished_ssid(id) {
            Ok(s) => s,
            Err(_) => return check(false, "setup"),
        };
        let w = scalar("w");
        let mut db = Db::default();
        db.store_verifier(b"u", salt16("salt"), None, B * w, pstring(1));
        let xs = Rng::new("x");
        let (s, m) = s.generate_client_info(b"u", &db, xs.clone());
        let log = xs.log();
        let (x_pub, _, _) = sv_info(m);
        check(log.len() >= 64 && x_pub == B * wide_draw(&log[..64]), "the augmentation key is what was drawn");
        let a = log.len();
        let (_, m) = s.generate_public_key(b"ci");
        let log = xs.log();
        let g = ref_gen::<0>(&ref_ssid::<0>(&[&id]), &enc(&(x_pub * w)), b"ci");
        check(log.len() >= a + 64 && sv_key(m) == g * wide_draw(&log[a..a + 64]), "the ephemeral key is what was drawn next");
        reach("done");
    }
    /// A11: client messages survive serialisation
    fn a11_client() {
        ser::client_round_trip()
    }
    /// A11: server messages survive serialisation
    fn a11_server() {
        ser::server_round_trip()
    }
    /// A11: elements in client messages
    fn a11_client_elements() {
        ser::client_elements()
    }
    /// A11: elements in server messages
    fn a11_server_elements() {
        ser::server_elements()
    }
    /// A11: salts and parameters
    fn a11_strings() {
        ser::strings()
    }
    /// A11: damaged messages
    fn a11_damaged() {
        ser::damaged()
    }
    /// A11: short messages
    fn a11_arbitrary() {
        ser::arbitrary()
    }
}
