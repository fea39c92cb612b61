"""What each property's check explores: harnesses, the choices (lengths, groups, variants) per tier, splits into jobs.

A choice is the list of indices into the harness's own table for that tag (see the harness source); tags that are
not listed are explored completely."""

SRP_MODEL = [
    "hash functions are random oracles (uninterpreted functions; collision-free where stated): the code is generic over the digest",
    "num-bigint is replaced by a reimplementation over 64-bit limbs with modpow axiomatised; replays use the real num-bigint",
    "groups are small prime fields, the code being generic over SrpGroup, and where stated those of RFC 5054",
    "in the groups of RFC 5054 an operation on numbers of three limbs or more is one term over whole numbers: arithmetic modulo the prime N, powers by exponents modulo N - 1, the values of powers otherwise unspecified; a symbolic number of several limbs is taken to have a non-zero top limb, its encoding at most one leading zero byte",
]
def rg(*g, **kw):
    return dict(kw, real_group=list(g))
CURVE_MODEL = [
    "curve25519-dalek is replaced by a group of order 8*101 with a 32-byte codec (uninterpreted injective encoding, decoding is its inverse), scalars are residues modulo 101",
    "SHA-256 and SHA-512 are uninterpreted functions of the whole input (collision-free where stated)",
]
AUC_MODEL = [
    "curve25519-dalek is replaced by a group of order 8*101 with a 32-byte codec (uninterpreted injective encoding, decoding is its inverse), scalars are residues modulo 101",
    "the digest is a random oracle with 64 bytes of output, the password hasher an uninterpreted function: the code is generic over both",
    "password-hash is vendored with branch-free validation of salts and values",
]
SQ = {"group": [0], "a_pub": [0, 1, 2, 3], "b_pub": [0, 1, 2, 3]}
ST = {}
PS = {"torsion": [0, 1]}

def h(crate, name, choices=None, split=(), thorough=None, tsplit=None, **kw):
    d = dict(crate=crate, name=name, choices=choices or {}, split=list(split), **kw)
    if thorough is not None:
        d["thorough"] = thorough
        d["thorough_split"] = list(tsplit if tsplit is not None else split)
    return d

G2 = {"group": [0, 1, 3]}
def R(**kw):
    """every index of the given tables"""
    return {k.rstrip("_"): list(range(n)) for k, n in kw.items()}

def REAL5():
    """the formulas of both sides in the groups of RFC 5054"""
    c = rg(0, 2, digest=[0, 1], sizes=[0, 1, 2])
    t = R(real_group=7, digest=2, sizes=3)
    s = ["real_group", "digest", "sizes"]
    return [h("h_srp", "s05_real_server", c, s, t), h("h_srp", "s05_real_client", c, s, t)]

PROPS = {
    "S01": dict(
        harnesses=[h("h_srp", "s01_agree", dict(SQ, user=[0, 1], salt=[0, 1], a=[0, 1], b=[0, 1], zeros=[0, 1]), ["user", "salt", "a", "b", "zeros"],
                     dict(group=[0, 1, 2, 3, 4, 5], user=[0, 1], salt=[0, 1], a=[0, 1], b=[0, 1], zeros=[0, 1]), ["group", "user", "salt", "a", "b", "zeros"]),
                   h("h_srp", "s01_real", rg(0, 2, digest=[0, 2], sizes=[0, 1, 2], zeros=[1]), ["real_group", "digest", "sizes"],
                     dict(R(real_group=7, digest=3, sizes=3, zeros=2)), ["real_group", "digest", "sizes", "zeros"])],
        bounds="the groups of 1024 and 2048 bits with digests of 64 and 20 bytes, user name, password and salt of 5/8/16, 0/300/32 and 129/1/0 bytes, exponents of 32 to 300 bytes; N = 23, g = 5; user name and salt of 0 and 2 bytes, password 2 bytes, exponents a and b of 1 and 2 bytes, up to 2 leading zero bytes on transmitted numbers; all contents symbolic; 2-byte hash values",
        bounds_thorough="as quick, over the groups N = 7, 11, 23, 251, 257, 263 (one- and two-byte moduli) and all seven groups of RFC 5054 with digests of 64, 32 and 20 bytes",
        outside="other lengths",
        assumptions=SRP_MODEL),
    "S02": dict(
        harnesses=[h("h_srp", "s02_server", SQ, ["a_pub"], dict(group=[0, 1, 2, 3, 4, 5], a_pub=[0, 1, 2, 3, 4]), ["group", "a_pub"]),
                   h("h_srp", "s02_client", SQ, ["b_pub"], dict(group=[0, 1, 2, 3, 4, 5], b_pub=[0, 1, 2, 3]), ["group", "b_pub"]),
                   h("h_srp", "s02_real")] + REAL5(),
        bounds="public values of the length of N, one and 77 bytes longer in the groups of 1024 and 2048 bits; all public values of 0 to 3 bytes against N = 23; the multiples 0, N, 2N, 3N of the seven RFC 5054 moduli with and without leading zero byte, credentials symbolic",
        bounds_thorough="as quick, N in 7, 11, 23, 251, 257, 263, A of up to 9 bytes; all seven groups of RFC 5054",
        outside="other lengths",
        assumptions=SRP_MODEL),
    "S03": dict(
        harnesses=[h("h_srp", "s03_proofs", {}, ["reply"])],
        bounds="32-byte proofs; received proofs of 0, 1, 4, 16, 20, 31, 32, 33, 64 and 300 bytes, every content; one ephemeral pair per side (the comparison does not depend on it)",
        outside="other digest sizes", assumptions=SRP_MODEL),
    "S04": dict(
        harnesses=[h("h_srp", "s04_binding", dict(group=[0], claim=list(range(5))), ["claim"], dict(group=[0, 3, 4], claim=list(range(5))), ["group", "claim"]),
                   h("h_srp", "s04_hashes"),
                   h("h_srp", "s04_real", rg(0, claim=[0, 1]), ["claim"], rg(0, 2, claim=[0, 1]), ["real_group", "claim"]),
                   h("h_srp", "s04_real_client", rg(0), [], rg(0, 2), ["real_group"], only="thorough")],
        bounds="the group of 1024 bits with 32-byte exponents and full-length public values and verifier (acceptance by the server, reflection); N = 23; one-byte exponents, verifier and received public values, all symbolic; the verifier need not be derived from the client's password; the proofs as hashes of A, B and S of 1, 129 and 300 bytes",
        bounds_thorough="N = 7, 11 and 23; the groups of 1024 and 2048 bits, acceptance by the client too", outside="other groups and lengths",
        assumptions=SRP_MODEL + ["the digest is collision-free"]),
    "S05": dict(
        harnesses=[h("h_srp", "s05_registration", dict(SQ), []), h("h_srp", "s05_hashes"),
                   h("h_srp", "s05_server", dict(SQ, b=[0, 1], a_pub=[0, 1]), ["b", "a_pub"], dict(G2, b=[0, 1], a_pub=[0, 1]), ["group", "b", "a_pub"]),
                   h("h_srp", "s05_client", dict(SQ, a=[0, 1], b_pub=[0, 1]), ["a", "b_pub"], dict(G2, a=[0, 1], b_pub=[0, 1]), ["group", "a", "b_pub"])] + REAL5(),
        bounds="the groups of 1024 and 2048 bits with digests of 64 and 20 bytes, exponents of 32, 64, 300 bytes, public values of the length of N, one and 77 bytes longer, user name, password and salt of 0 to 300 bytes; N = 23; credentials of 0, 3 and 300 bytes, hashed strings of 0, 2, 256, 300 bytes, exponents of 1 and 3 bytes, public values of 1 and 2 bytes, all contents symbolic",
        bounds_thorough="as quick, the protocol formulas also for N = 257 and 11 and all groups of RFC 5054", outside="other lengths",
        assumptions=SRP_MODEL),
    "S06": dict(
        harnesses=[h("h_srp", "s06_client", SQ, [], dict(group=[0, 1, 2, 3, 4, 5]), ["group"]), h("h_srp", "s06_server", SQ, [], dict(group=[0, 1, 2, 3, 4, 5]), ["group"]),
                   h("h_srp", "s06_real", rg(0, 2, sizes=[0, 1, 2]), ["real_group", "sizes"], R(real_group=7, sizes=3), ["real_group", "sizes"])],
        bounds="the groups of 1024 and 2048 bits, B and A of the length of N to twice that, k, x and u of 20, 32 and 64 bytes, exponents of 32 bytes and of the length of N and 44 bytes longer; N = 23; every B, k, x, a, u, A, b of up to 16 bits and v of 8 bits, reduced or not", bounds_thorough="as quick for N = 7, 11, 23, 251, 257, 263 and all groups of RFC 5054",
        outside="other lengths", assumptions=SRP_MODEL),
    "S07": dict(
        harnesses=[h("h_srp", "s07_groups")],
        bounds="the seven groups completely; k for every digest (uninterpreted); A = g^a for a < 8",
        outside="larger exponents in the real groups", assumptions=SRP_MODEL),
    "P01": dict(
        harnesses=[h("h_spake2", "p01_agree", {}, ["pw"])],
        bounds="passwords of 0, 1, 3, 64, 300 bytes, identities of 0, 1, 300 bytes, all contents symbolic; every scalar of the model group", outside="other lengths", assumptions=CURVE_MODEL),
    "P02": dict(
        harnesses=[h("h_spake2", "p02_validate", {}, ["msg"]), h("h_spake2", "p02_elements", dict(PS, torsion=[0, 1, 2, 3, 4, 5, 6, 7]), ["torsion"])],
        bounds="messages of 0, 1, 2, 32, 33, 34, 64, 65, 300 bytes with every content, to each of the three sides; every element of the model group including all eight torsion components", outside="other lengths", assumptions=CURVE_MODEL),
    "P03": dict(
        harnesses=[h("h_spake2", "p03_binding", dict(R(shape=8), torsion=[0]), ["shape"], dict(R(shape=14), torsion=[0, 1, 4]), ["shape", "torsion"]),
                   h("h_spake2", "p03_symmetric", dict(R(shape=4), torsion=[0]), ["shape"], dict(R(shape=14), torsion=[0, 1]), ["shape", "torsion"])],
        bounds="passwords of 1, 2 and 300 bytes, identities of 0, 1, 2, 299 and 300 bytes in 8 combinations (symmetric: 4), contents symbolic; arbitrary prime-order elements delivered to both sides", bounds_thorough="14 combinations of passwords and identities of 0, 1, 2, 33, 64, 65, 128, 299, 300 bytes, elements with torsion",
        outside="other lengths", assumptions=CURVE_MODEL + ["SHA-256 is collision-free"]),
    "P04": dict(
        harnesses=[h("h_spake2", "p04_format", dict(PS), ["side", "pw"], {}, ["side", "pw"]), h("h_spake2", "p04_received")],
        bounds="passwords of 0, 2, 64, 300 bytes, identities of 0, 2, 300 bytes, each side, every received element (torsion components 0 and 1) and every received 32-byte string", bounds_thorough="all eight torsion components",
        outside="other lengths", assumptions=CURVE_MODEL),
    "P05": dict(
        harnesses=[h("h_spake2", "p05_symmetric", {}, ["pw"])],
        bounds="passwords of 0, 1, 3, 64, 300 bytes, identities of 0, 1, 300 bytes, contents symbolic; every scalar of the model group; both message orders and equal messages", outside="other lengths", assumptions=CURVE_MODEL),
    "P07": dict(
        harnesses=[h("h_spake2", "p07_codec", {}), h("h_spake2", "p07_scalar", {}), h("h_spake2", "p07_laws", dict(PS), [], {}, [])],
        bounds="byte strings of 0, 1, 31, 32, 33, 64 bytes with every content; passwords of 0, 1, 2, 63, 64, 65, 300 bytes; every scalar and element of the model group (quick: torsion 0 and 1)", outside="other lengths", assumptions=CURVE_MODEL),
    "P08": dict(
        harnesses=[h("h_spake2", "p08_debug", {}, ["side", "ida", "pw2"])],
        bounds="identities of 0, 1, 2 bytes, passwords of 2 and 9 bytes, every scalar", outside="other lengths", assumptions=CURVE_MODEL),
    "A01": dict(
        harnesses=[h("h_aucpace", "a01_agree", R(creds=3), ["alloc", "size", "creds"],
                     R(creds=10), ["alloc", "size", "creds"]),
                   h("h_aucpace", "a01_strong", dict(R(creds=3), size=[0]), ["alloc", "partial", "nonces", "creds"],
                     R(creds=10), ["alloc", "size", "creds", "nonces"])],
        bounds="user name, password and channel identifier of 0, 1 and 300 bytes each, hasher output of 32 and 64 bytes (strong: 32), every variant, all contents and scalars symbolic; at most one zero draw of the blinding value",
        bounds_thorough="ten combinations of user name, password and channel identifier of 0, 1, 3, 12, 33, 40, 65, 129, 255, 256, 257 and 300 bytes",
        outside="other lengths", assumptions=AUC_MODEL),
    "A02": dict(
        harnesses=[h("h_aucpace", "a02_client_info", {}, ["strong", "alloc"]), h("h_aucpace", "a02_public_keys"), h("h_aucpace", "a02_server_strong")],
        bounds="every group element of the model for each received element, every scalar, known and unknown users", outside="other variants of user name and password",
        assumptions=AUC_MODEL),
    "A03": dict(
        harnesses=[h("h_aucpace", "a03_client"), h("h_aucpace", "a03_server")],
        bounds="every 64-byte authenticator, every session identifier of 16 bytes, scalar, salt", outside="other lengths of session identifiers and names",
        assumptions=AUC_MODEL),
    "A04": dict(
        harnesses=[h("h_aucpace", "a04_binding", R(mitm=3, shape=8), ["mitm", "shape"], R(mitm=3, shape=14)),
                   h("h_aucpace", "a04_implicit", R(shape=4), [], R(shape=14), ["shape"])],
        bounds="session identifiers of 16, 17, 64, 65 and 300 bytes and channel identifiers of 0, 1, 64, 65 and 300 bytes in 8 combinations, every verifier, scalar and substituted public key of the model; substitution on one side at a time",
        bounds_thorough="14 combinations, lengths 33, 128, 129, 256 added",
        outside="other lengths; simultaneous substitution of both public keys (the model group is so small that an attacker can invert)",
        assumptions=AUC_MODEL + ["the digest is collision-free, and different inputs give different generators"]),
    "A05": dict(
        harnesses=[h("h_aucpace", "a05_prestablished"), h("h_aucpace", "a05_nonces")],
        bounds="identifiers of 0, 1, 8, 15, 16, 17, 32, 64, 65 and 300 bytes, nonces of 1, 16, 33 and 129 bytes, all contents", outside="other lengths", assumptions=AUC_MODEL),
    "A06": dict(
        harnesses=[h("h_aucpace", "a06_unknown"), h("h_aucpace", "a06_unknown_strong")],
        bounds="unknown user names of 0, 1, 5 and 300 bytes, every server secret, two consecutive requests, every scalar", outside="other lengths; more requests", assumptions=AUC_MODEL),
    "A07": dict(
        harnesses=[h("h_aucpace", "a07_hashing", dict(R(strong=2), user=[0, 1, 3, 5], buffer=[0, 2, 5], **{"pass": [0, 1, 5, 6]}), ["strong", "buffer", "user", "pass"],
                     R(user=6, pass_=7, buffer=6, strong=2), ["user", "buffer", "strong"])],
        bounds="user names of 0, 1, 14 and 99 bytes, passwords of 0, 1, 15 and 98 bytes, buffers of 1 and 16 bytes and the allocating functions, hashes of 0, 10, 31, 32, 33, 63 and 64 bytes, failing hasher and parameters",
        bounds_thorough="user names of 0, 1, 3, 14, 15, 99 bytes, passwords of 0, 1, 2, 13, 14, 15, 98 bytes, buffers of 0, 1, 5, 16, 100 bytes",
        outside="other lengths and sizes", assumptions=AUC_MODEL),
    "A08": dict(
        harnesses=[h("h_aucpace", "a08_client", R(creds=5, strong=2), ["strong", "creds"], R(creds=10, strong=2), ["strong", "creds"]),
                   h("h_aucpace", "a08_server", R(creds=5), ["creds"], R(creds=10), ["creds"])],
        bounds="user names, passwords and channel identifiers of 0, 1, 40 and 300 bytes in five combinations, hasher output of 32 and 64 bytes, all contents, scalars and received elements symbolic",
        bounds_thorough="ten combinations of 0, 1, 3, 12, 33, 40, 65, 129, 255, 256, 257 and 300 bytes",
        outside="other lengths", assumptions=AUC_MODEL),
    "A09": dict(
        harnesses=[h("h_aucpace", "a09_partial"), h("h_aucpace", "a09_keypair"), h("h_aucpace", "a06_unknown"), h("h_aucpace", "a06_unknown_strong")],
        bounds="user names of 0, 1, 3 and 300 bytes, every stored pair (whether or not the halves belong together), verifier, scalar and blinded point", outside="other lengths", assumptions=AUC_MODEL),
    "A10": dict(
        harnesses=[h("h_aucpace", "a10_oprf", R(creds=5, alloc=2), ["creds", "alloc"], R(creds=10, alloc=2))],
        bounds="user names and passwords of 0, 1 and 300 bytes in five combinations (thorough: ten, up to 300 bytes), every secret exponent and non-zero blinding value; at most one zero draw", outside="other lengths", assumptions=AUC_MODEL),
    "A11": dict(
        harnesses=[h("h_aucpace", "a11_client", {"format": [0, 1]}, ["format"]), h("h_aucpace", "a11_server"), h("h_aucpace", "a11_client_elements"), h("h_aucpace", "a11_server_elements"),
                   h("h_aucpace", "a11_strings", {"format": [0, 1]}, ["format"]), h("h_aucpace", "a11_damaged", {"format": [0, 1], "truncate": [0, 1], "server": [0, 1], "kind_server": [0, 1, 2, 3, 4]}, ["format", "server"]),
                   h("h_aucpace", "a11_arbitrary", {"format": [0, 1], "server": [0, 1]}, ["format", "server"])],
        bounds="postcard and bincode; every kind of message, user names of 0, 1, 127, 128, 300 bytes, salts of 22 and 64 characters, three parameter strings; every 32-byte string in place of an element, every string of the same length in place of a salt (4, 22, 64) or parameter string (3, 5); every proper prefix and every replacement of one byte of one message of each kind; every byte string of up to 6 (postcard) or 14 (bincode) bytes",
        outside="self-describing formats; two or more replaced bytes; longer arbitrary strings",
        assumptions=AUC_MODEL + ["the validity of UTF-8 is decided as a whole by the standard's automaton in place of core::str::from_utf8; error details are not modelled"]),
    "A12": dict(
        harnesses=[h("h_aucpace", "a12_client"), h("h_aucpace", "a12_server"), h("h_aucpace", "a12_nonces")],
        bounds="two consecutive sessions and registrations, nonces of 1, 8, 16, 33 and 129 bytes, every output of the generator", outside="longer histories", assumptions=AUC_MODEL),
}
