AC, AS, AU, AD = "aucpace/src/client.rs", "aucpace/src/server.rs", "aucpace/src/utils.rs", "aucpace/src/database.rs"
p("A01", "AuCPace: honest runs agree in every variant",
  "After registration, an honest client and server that exchange their messages unchanged accept each other and hold the same 64-byte session key, for every user name, password, channel identifier, hasher parameter and randomness, in each variant: full, prestablished SSID, strong (OPRF-blinded), partial augmentation, implicit or explicit mutual authentication, allocating and buffer-based hashing.",
  ["inputs", "configurations"], "all credentials, channel identifiers, parameters and random draws; every combination of variants",
  "tests run one random exchange of some variants",
  [AC, AS, AU, AD], [("protocol phases", AC + ", " + AS), ("hash formulas", AU)], ["AuCPaceClient", "AuCPaceServer", "session keys"])
p("A02", "AuCPace: neutral group elements are refused wherever received",
  "Every group element received from the peer is refused with an illegal-point error exactly when it is the neutral element: ephemeral public keys on both sides with implicit and explicit authentication, the server's augmentation key, and in the strong variant the blinded user point and the blinded salt (allocating and buffer-based). No other element is refused by these checks.",
  ["inputs"], "every group element in every position of every variant",
  "each receiving position needs its own adversarial message; tests cover few or none of them",
  [AC, AS], [("identity checks", AC + ":generate_cpace*, receive_server_pubkey, implicit_auth; " + AS + ":receive_client_pubkey, implicit_auth, generate_client_info_strong")], ["Result of the receiving calls"])
p("A03", "AuCPace: an authenticator is accepted exactly when it is the expected one",
  "Each side accepts the peer's key confirmation if and only if all 64 bytes equal the expected authenticator, and refuses every other value with a mutual-authentication error; the server reveals its own authenticator only after accepting the client's.",
  ["inputs"], "every 64-byte authenticator on both sides",
  "tests send the right authenticator or one wrong one; a partial comparison passes them",
  [AC, AS, AU], [("constant-time comparison", AC + ":receive_server_authenticator, " + AS + ":receive_client_authenticator")], ["receive_server_authenticator", "receive_client_authenticator"])
p("A04", "AuCPace: different password, session or channel never authenticates",
  "With a collision-free hash, explicit mutual authentication between parties that receive each other's public keys unchanged succeeds, and implicit authentication gives equal keys, only if both used the same session identifier, password-derived secret and channel identifier. With the same values, replacing one of the public keys makes authentication fail. Whenever the server accepts the client accepts too and both hold the same key. A client's own authenticator sent back to it is refused.",
  ["inputs", "histories"], "all mismatching values and all substituted public keys",
  "requires adversarial values in each message position",
  [AC, AS, AU], [("generator and authenticators", AU + ":generate_keypair, compute_authenticator_messages")], ["receive_server_authenticator", "receive_client_authenticator", "session keys"])
p("A05", "AuCPace: session identifiers: 16-byte minimum and full input",
  "A prestablished session identifier shorter than 16 bytes is refused by both sides as insecure and every one of at least 16 bytes is accepted; the effective session identifier is the hash of all its bytes, or of the server's nonce followed by the client's nonce when it is agreed on line.",
  ["inputs"], "all identifiers of every length around the limit; all nonces",
  "the limit and the byte order matter only at boundary lengths and with two different implementations",
  [AC, AS, AU], [("length check", AC + ":begin_prestablished_ssid, " + AS + ":begin_prestablished_ssid"), ("SSID hash", AU + ":compute_ssid")], ["begin_prestablished_ssid", "agree_ssid"])
p("A06", "AuCPace: unknown users get stable, well-formed replies",
  "For a user that is not registered the server replies with a message of the same kind as for a registered one, in the plain, strong and partial variants: the salt (strong: the secret exponent) is the hash of the server's secret and the user name, hence the same for repeated requests and different between servers; a stored key pair is still announced; the parameters are the default ones. The rest of the protocol runs without panic, with a password-derived secret of 32 freshly drawn bytes, so that no client authenticates except by guessing.",
  ["inputs", "histories"], "all unknown user names, server secrets and random draws",
  "observing the user-enumeration defence needs repeated requests and different secrets; tests make one request",
  [AS, AU], [("fake lookups", AS + ":generate_client_info, lookup_failed, lookup_failed_strong")], ["generate_client_info", "generate_client_info_strong", "generate_client_info_partial*"])
p("A07", "AuCPace: password hashing inputs, buffer limits and errors are exact",
  "The hasher receives exactly user name, ':' and password with the given salt and parameters; the buffer-based functions fail with a too-long error exactly when that string exceeds the buffer, and otherwise agree with the allocating ones. Hashes of 32 and 64 bytes give the scalar of their bytes, other lengths, missing hashes and hasher or parameter errors give an error, never a panic.",
  ["inputs"], "all user names, passwords, buffer sizes at and around the boundary, all hash lengths, failing hashers",
  "tests use short credentials, one buffer size and one hasher",
  [AC, AU], [("bounded buffer", AC + ":hash_password"), ("scalar conversion", AU + ":scalar_from_hash")], ["register", "register_alloc*", "generate_cpace*"])
p("A08", "AuCPace: all derived values follow the documented formulas",
  "SSID, password generator, public keys, session keys and authenticators are the domain-separated hashes H0 to H5 and group operations of the protocol description, on client and server, so that each interoperates with an independent implementation, for every input.",
  ["inputs"], "all nonces, secrets, channel identifiers and received values",
  "client and server share the same helper code: a wrong formula agrees with itself in every round-trip test",
  [AC, AS, AU], [("hash prefixes", AU)], ["messages and session keys of both sides"])
p("A09", "AuCPace: partial augmentation uses the registered long-term key pair",
  "With partial augmentation the server announces the stored public key of the user and uses the stored private key, without replacing either, so that the client's check against them succeeds; for unknown users it announces some other element and never authenticates.",
  ["inputs", "histories"], "all stored key pairs and users, plain and strong",
  "tests store one key pair and check that agreement works",
  [AS, AD], [("long-term key pair", AS + ":generate_client_info_partial*")], ["generate_client_info_partial", "generate_client_info_partial_strong"])
p("A10", "AuCPace: the strong salt is the OPRF value, whatever the blinding",
  "In the strong variant the salt given to the hasher is the encoding of the point derived from user name and password times the user's secret exponent: the same at registration and at every login, for every non-zero blinding value, and what the server sees is the blinded point only.",
  ["inputs"], "all credentials, secret exponents and blinding values",
  "a test compares one login with one registration",
  [AC, AS, AU], [("blinding", AC + ":start_augmentation_strong, generate_cpace*"), ("OPRF", AS + ":generate_client_info_strong")], ["register_alloc_strong", "start_augmentation_strong", "generate_client_info_strong"])
p("A11", "AuCPace: messages survive serialisation; malformed bytes never panic",
  "Every client and server message that the library produces decodes from its serialised form to the same message, in compact binary formats; decoding arbitrary bytes gives a message or an error, never a panic, and never a message with a non-canonical group element or an invalid salt.",
  ["inputs"], "all messages, all byte strings up to a length",
  "tests serialise one message of each kind; decoding errors depend on arbitrary bytes",
  [AC, AS, AU], [("serde helpers", AU)], ["Serialize and Deserialize of ClientMessage, ServerMessage"])
p("A12", "AuCPace: nonces and secrets are fresh draws of the generator",
  "Each session's nonce, ephemeral key, blinding value, salt and secret exponent comes from the random number generator at the time it is needed: the transmitted nonce is exactly the bytes drawn, no two of these values share a draw, and a second session uses new draws.",
  ["inputs", "histories"], "all outputs of the generator; consecutive sessions",
  "reuse or truncation of randomness is invisible to agreement tests",
  [AC, AS], [("draws", AC + ":begin, " + AS + ":begin, " + AU + ":generate_nonce")], ["begin", "nonce messages", "public keys"])
