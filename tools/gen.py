#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import props

P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, level_note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None)))

SRPC, SRPS, SRPU = "srp/src/client.rs", "srp/src/server.rs", "srp/src/utils.rs"
p("S01", "SRP: honest client and server agree on key and proofs",
  "For every user name, password, salt and every pair of secret exponents, a server that holds the verifier computed at registration and a client that uses the same credentials both accept each other's messages, derive the same session key and verify each other's proofs. Leading zero bytes on transmitted numbers do not matter.",
  ["inputs"], "all credentials, salts, ephemeral secrets (including ones giving short public values), encodings with and without leading zeros",
  "the tests run a handful of fixed or random exponents; agreement fails only for particular values (short encodings, B below k*v, exponents needing reduction)",
  [SRPC, SRPS, SRPU], [("premaster secrets", SRPC + ":compute_premaster_secret, " + SRPS + ":compute_premaster_secret")], ["SrpClient::process_reply", "SrpServer::process_reply", "key()", "verify_client", "verify_server"])
p("S02", "SRP: public values congruent to zero are refused, all others processed",
  "The server refuses a received public value exactly when it is a multiple of the group modulus, whatever its encoding, and the client does the same; the refusal is an illegal-parameter error naming the offending value (a_pub, b_pub). Every other byte string is processed without error or panic.",
  ["inputs"], "every byte string received as public value: zero, N, multiples of N, padded, empty, oversized",
  "tests try A = 0 (or none); multiples of N and padded encodings form an infinite family",
  [SRPC, SRPS], [("modulus check before use", SRPS + ":process_reply, " + SRPC + ":process_reply")], ["Result of process_reply"])
p("S03", "SRP: a proof is accepted exactly when it equals the expected proof",
  "Each side accepts a received proof if and only if it is byte for byte the expected one, over its whole length; shorter, longer, empty or partly matching proofs give a bad-record-MAC error naming the peer (client, server). No received proof causes a panic.",
  ["inputs"], "every byte string received as proof",
  "tests send the right proof and perhaps one wrong one; a truncated comparison passes them",
  [SRPC, SRPS], [("constant-time comparison", SRPC + ":verify_server, " + SRPS + ":verify_client")], ["verify_client", "verify_server"])
p("S04", "SRP: acceptance implies same public values and same key",
  "With a collision-free hash and public values of equal encoded length, if the server accepts a client's proof then both sides used the same A and B and hold the same key, whatever an attacker substituted in transit and whatever verifier the server holds; likewise if the client accepts the server's proof. A side never accepts its own proof reflected back, nor a client proof as a server proof.",
  ["inputs", "histories"], "every substitution of public values and proofs, matching or not matching passwords",
  "requires adversarial values in every message position; tests run honest exchanges and one wrong password",
  [SRPC, SRPS, SRPU], [("transcript in M1 and M2", SRPU + ":compute_m1, compute_m2")], ["verify_client", "verify_server", "key()", "proof()"])
p("S05", "SRP: verifier, public values, keys and proofs follow the documented formulas",
  "x = H(salt | H(user | ':' | password)), v = g^x, A = g^a, B = k*v + g^b, u = H(A | B), M1 = H(A | B | S) and M2 = H(A | M1 | S), with S the RFC 5054 premaster secret and numbers in minimal big-endian form, for every credential, secret and received value. Each side can therefore interoperate with an independent implementation of these formulas.",
  ["inputs"], "all byte strings of user name, password and salt (empty and long included), all secrets and public values",
  "a test vector fixes one input; formulas that differ only for empty, long or short-encoded values pass it",
  [SRPC, SRPS, SRPU], [("hash formulas", SRPU), ("registration", SRPC + ":compute_verifier")], ["compute_verifier", "compute_public_ephemeral", "process_reply", "compute_u", "compute_m1", "compute_m2"])
p("S06", "SRP: the premaster secrets are exact for arbitrary integers",
  "The client's premaster secret is (B - k*g^x)^(a + u*x) mod N and the server's is (A * v^u)^b mod N, and B = (k*v + g^b) mod N, for arbitrary non-negative integers, reduced or not, including B smaller than k*g^x and zero exponents, without underflow or panic.",
  ["inputs"], "all integer arguments, unreduced and zero ones included",
  "underflow and reduction errors need particular relations between B, k and g^x that random tests of large groups practically never hit",
  [SRPC, SRPS], [("subtraction modulo N", SRPC + ":compute_premaster_secret")], ["compute_premaster_secret", "compute_b_pub"])
p("S07", "SRP: the built-in groups and k are those of RFC 5054",
  "The seven provided groups have exactly the RFC 5054 moduli and generators, and k = H(N | g padded to the length of N) for each of them; A = g^a in the group selected.",
  ["inputs", "configurations"], "all seven groups; k for every digest",
  "tests use one group (with a vector) and trust the other constants",
  ["srp/src/groups.rs", "srp/src/groups/", SRPU, "srp/src/types.rs"], [("constants", "srp/src/groups.rs"), ("k", SRPU + ":compute_k")], ["G_1024 .. G_8192", "compute_k"])

SL, SE = "spake2/src/lib.rs", "spake2/src/ed25519.rs"
p("P01", "SPAKE2: honest sides A and B agree on the key",
  "For every password, pair of identities and pair of secret scalars, side A and side B that exchange their messages unchanged both finish successfully with the same 32-byte key.",
  ["inputs"], "all passwords, identities (empty and long included) and secret scalars",
  "tests run one random exchange; disagreement for particular scalars, empty or long identities would not show",
  [SL, SE], [("key derivation", SL + ":finish"), ("transcript", SE + ":hash_ab")], ["start_a", "start_b", "finish"])
p("P02", "SPAKE2: received messages are validated exactly and never panic",
  "finish returns WrongLength for every message that is not 33 bytes long, BadSide for every 33-byte message whose first byte does not name the expected peer side (so reflected and cross-protocol messages are refused), CorruptMessage when the other 32 bytes encode no group element, and a 32-byte key otherwise. No byte string makes it panic, on any of the three sides.",
  ["inputs"], "every received byte string, for sides A, B and symmetric",
  "the input space is all byte strings; tests try three or four",
  [SL, SE], [("validation", SL + ":finish"), ("decoding", SE + ":bytes_to_element")], ["Spake2::finish"])
p("P03", "SPAKE2: equal keys imply equal passwords, identities and messages",
  "With a collision-free hash, two sides can hold the same key only if they used the same password and the same identities and each received exactly the message the other one sent. This holds whatever group elements an attacker delivers.",
  ["inputs", "histories"], "all pairs of passwords and identities, including ones whose concatenations coincide, and all delivered elements",
  "tests compare one pair of different passwords; boundary confusions between fields need chosen inputs",
  [SL, SE], [("transcript hash", SE + ":hash_ab, hash_symmetric")], ["start_a", "start_b", "start_symmetric", "finish"])
p("P04", "SPAKE2: messages and keys are those of the interoperable format",
  "A message is the side byte (0x41 A, 0x42 B, 0x53 symmetric) followed by the compressed element x*B + pw*blind (blind = M, N or S of python-spake2) and the key is SHA-256 over the documented transcript of password hash, identity hashes, both message elements as transmitted and the shared element. This holds for every password, identity, scalar and received element, non-canonical encodings included.",
  ["inputs"], "all passwords, identities, scalars, received elements and encodings",
  "vectors in the tests fix a few values for one side; other sides, empty and long inputs and odd encodings are not reached",
  [SL, SE], [("message", SL + ":start_internal"), ("key", SL + ":finish"), ("transcript", SE + ":hash_ab, hash_symmetric")], ["start_*", "finish"])
p("P05", "SPAKE2: symmetric sides agree whatever the order of their messages",
  "For every password, identity and pair of secret scalars two symmetric sides that exchange their messages unchanged derive the same key, whichever message sorts first and also when both messages are equal.",
  ["inputs"], "all passwords, identities and scalars; both orders of the messages",
  "which message is smaller depends on the random scalars: a one-sided ordering bug appears in half of the runs or only on particular bytes",
  [SL, SE], [("sorted transcript", SE + ":hash_symmetric")], ["start_symmetric", "finish"])
p("P07", "SPAKE2: the group interface encodes, decodes and computes faithfully",
  "Decoding accepts exactly the 32-byte strings that encode an element and decode-encode round-trips; other lengths give none without panic; password scalars are the interoperable HKDF expansion for every password; multiplication, addition and negation follow the group laws; M, N and S are the interoperable constants.",
  ["inputs"], "all byte strings, passwords, scalars and elements",
  "tests decode a few constants and derive a few password scalars",
  [SE, "spake2/src/group.rs"], [("Group implementation", SE)], ["Ed25519Group"])
p("P08", "SPAKE2: debug output reveals neither password nor secret scalar",
  "The debug representation of a running exchange is the same for all passwords and all secret scalars: it depends only on the group, the side and the identities.",
  ["inputs"], "all passwords and secret scalars, each side",
  "a test compares one formatted value; dependence on secret bytes needs two runs that differ only in the secrets",
  [SL], [("hand-written formatting", SL + ":Debug for Spake2")], ["format!(\"{:?}\")"])
exec(open(os.path.join(ROOT, "tools", "aucpace_props.py")).read())

NOTE = ("Bounded model checking of the crate's compiled LLVM IR, regenerated from /repo on every run: every path and every value within the stated bounds, decided by Z3 and by "
        "term rewriting; counterexamples are replayed natively. Trusted: rustc's code generation, the executor (validated against native runs on every check) and the models named in the evidence's assumptions.")
TECH = "symbolic execution of LLVM IR with an SMT solver (Z3; cvc5 cross-check in the thorough tier)"

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    na = dict(NOT_APPLICABLE)
    checks = []
    for x in P:
        if x["id"] in props.PROPS:
            s = props.PROPS[x["id"]]
            checks.append(dict(property=x["id"], quick_cmd="python3-vt check.py %s quick" % x["id"], thorough_cmd="python3-vt check.py %s thorough" % x["id"],
                technique=TECH, level="model_checking", level_note=NOTE + " Bounds: " + s["bounds"] + "."))
        elif x["id"] not in na:
            na[x["id"]] = "check under construction"
    m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
        notes="No hooks in /repo are needed: the checks compile /repo's crates as they are and replace dependencies through a separate workspace.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
NOT_APPLICABLE = {}
if __name__ == "__main__":
    main()
