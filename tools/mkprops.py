#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

SP="spake2/src/lib.rs"; ED="spake2/src/ed25519.rs"
SC="srp/src/client.rs"; SS="srp/src/server.rs"; SU="srp/src/utils.rs"; SG="srp/src/groups.rs"
AC="aucpace/src/client.rs"; AS="aucpace/src/server.rs"; AU="aucpace/src/utils.rs"

p("S01","SPAKE2: parties with the same inputs always derive the same key",
  "When the two sides of a SPAKE2 exchange (one A and one B, or two symmetric sides) use the same password and the same identities and each receives the other's message unmodified, both succeed and return the same 32-byte key. This holds for every password, every identity, and every random choice, including byte strings of any length and content and messages that agree in arbitrarily many leading or trailing bytes (two symmetric sides that happen to send the identical message are excepted: a session refuses its own message).",
  ["inputs","configurations"],"all passwords, identities, ephemeral choices; asymmetric and symmetric mode",
  "the tests run one fixed password and identity pair per mode with a handful of random scalars; orderings of the two symmetric messages that need long common prefixes, and unusual strings, are never reached",
  [SP,ED],[("start_internal / finish",SP),("hash_ab, hash_symmetric (canonical message order)",ED)],
  [("session","side, ephemeral scalar, password, own message",SP)],["keys returned by finish on both sides"])
p("S02","SPAKE2: a key binds password, identities, roles and both messages",
  "Two completed SPAKE2 sessions return equal keys only if they used the same mode, exactly the same password bytes, exactly the same identity strings in the same positions, and exactly the same pair of exchanged messages in the same roles (unordered in symmetric mode). Changing any single byte, extending, truncating, swapping or re-splitting any of these, or altering a message in transit, leaves the two sides with different keys.",
  ["inputs","histories"],"all pairs of sessions, all differences in one or several inputs, all alterations of messages in transit",
  "one test compares two different passwords; identity differences, boundary shifts between the two identities, long strings, swaps and tampered messages are never tried",
  [SP,ED],[("transcript hashing of fixed-length digests",ED),("finish",SP)],[],["keys returned by finish"])
p("S03","SPAKE2: finish accepts exactly well-formed messages of the peer role",
  "Finishing a SPAKE2 session with an arbitrary byte string never panics. It returns the wrong-length error unless the string is exactly one byte longer than an encoded group element, otherwise the bad-side error unless the first byte names the peer role (A expects B, B expects A, symmetric expects symmetric) and the message is not the session's own message, otherwise the corrupt-message error unless the rest decodes to a group element; in all other cases it succeeds.",
  ["inputs"],"all byte strings handed to finish by the network, in each of the three roles",
  "three hand-picked bad messages are tested (one over-long, one reflected, none undecodable); the other 253 side bytes, all other lengths, undecodable points, error precedence and the symmetric role are not",
  [SP,ED],[("length, side and decoding checks in finish",SP),("bytes_to_element",ED)],[],["Result of finish"])
p("S04","SPAKE2: messages and keys are byte-exact with the published algorithm",
  "For the Ed25519 group every outgoing message is the role byte followed by the 32-byte encoding of x*B + pw*U (U being the published M, N or S element for A, B or symmetric, pw the HKDF-SHA256-derived password scalar and x the session's ephemeral scalar). The key is SHA-256 over SHA-256(password), the SHA-256 of each identity, both message bodies as they appeared on the wire in canonical order, and the encoding of x*(peer - pw*U'), so that the result interoperates with the reference python-spake2 for every input.",
  ["inputs"],"all passwords, identities, ephemeral scalars, and all decodable peer messages (including small-order and non-canonically encoded ones)",
  "one fixed vector for the asymmetric mode and none for a symmetric exchange; other inputs cannot be enumerated by vectors",
  [SP,ED],[("start_internal, finish",SP),("hash_ab, hash_symmetric, ed25519_hash_to_scalar, const_m/n/s",ED)],[],["messages from start_*, keys from finish"])
p("S05","SPAKE2: messages are freshly and perfectly blinded",
  "Each session's message is blinded by an ephemeral scalar drawn anew from the supplied random generator over the whole scalar range, never from a constant, a cache or another input. Over the random choice, the message of a role is distributed identically for every password and identity, so an eavesdropper's view carries no information about the password; distinct sessions send distinct messages.",
  ["inputs","histories","configurations"],"all passwords, all random choices, any number of sessions in a process",
  "a unit test sees single messages; independence from the password is a statement about the set of messages over all random choices",
  [SP,ED],[("random_scalar and blinding in start_*",SP)],[],["messages from start_*_with_rng and start_*"])
p("S06","SPAKE2: debug rendering discloses nothing but group, role and identities",
  "The debug rendering of a SPAKE2 session is a function of the group name, the role and the identity strings only: it is the same for every password and every ephemeral value. Identities that are valid UTF-8 appear verbatim and other identities appear as the two-digit hexadecimal encoding of all their bytes.",
  ["inputs"],"all passwords, ephemeral values and identities, plain and alternate formatting",
  "the tests render two sessions with ASCII identities; secrecy is a non-interference statement over all passwords and ephemerals",
  [SP],[("Debug for Spake2, Side, MaybeUtf8",SP)],[],["format!(\"{:?}\") of a session"])
p("S07","SPAKE2: the group interface is a group of prime order with exact encodings",
  "Used directly, the public group interface of SPAKE2 (Group, implemented by Ed25519Group) obeys the laws the protocol rests on: addition is commutative and associative, multiplication by a scalar distributes over addition, multiplying by one scalar and then another does not depend on the order, multiplication by the negated scalar gives the inverse, and base-point multiplication is multiplication of one fixed base point, for all scalars (zero and one included) and all elements of the prime-order subgroup (for addition: all elements). Expressions that no law makes equal are different for independently chosen values, M, N, S and the base point included. Every element is encoded in exactly the announced number of bytes and decoding gives it back; decoding never panics and yields an element exactly for strings of that length that encode a curve point. Random scalars range over the whole scalar field, and scalars hashed from a string are deterministic and depend on every byte of it.",
  ["inputs"],"all scalars, all elements, all byte strings handed to the decoder, all strings hashed to a scalar",
  "the tests compare constants and a few hashed scalars; algebraic laws quantify over all elements and scalars, and special cases (zero, one, equal or opposite summands, elements of small order) are not reached by chance",
  [ED,"spake2/src/group.rs"],[("impl Group for Ed25519Group",ED),("ed25519_hash_to_scalar, c2_*, hash_to_scalar",ED)],[],["return values of the Group functions"])
p("S08","SPAKE2: the protocol works in every group that implements the interface",
  "Spake2<G> and its standard identities work for every implementation of the Group trait, whatever the length of its encoded elements and its size: matching exchanges succeed with the same 32-byte key, mismatched ones give different keys, a message is the role byte followed by the encoding of x*B + pw*U in G, the key is the SHA-256 of the documented transcript of G's encodings, and finish answers every byte string with success or exactly the documented error without panicking.",
  ["inputs","configurations"],"all implementations of Group (element lengths from one byte to a thousand), scalars, passwords, roles, received strings",
  "the only group implemented in the crate has 32-byte elements, so nothing in the tests instantiates the protocol with another",
  [SP,"spake2/src/group.rs",ED],[("impl<G: Group> Spake2<G>",SP),("hash_ab, hash_symmetric",ED)],[],["messages, keys and errors of Spake2<G> for a group G of one's own"])

p("S09","SPAKE2: one exchange is one password guess, and recorded sessions stay secret",
  "Whoever exchanges messages with a SPAKE2 session without using its password learns from it whether one guessed password is right, and nothing more: whatever they send, made from the base point and the published elements M, N and S (of which nobody knows a relation), the messages seen and scalars of their own, they cannot afterwards compute the session's key for any other password, not even knowing it, nor from the secrets and keys of other sessions with the same password. The key of a session between two honest sides cannot be computed from the recorded messages, the identities and a password that becomes known later; it always depends on an element that is never sent.",
  ["inputs","fault_sequences"],"all messages an intruder can make from what they know, in the three roles, and all ways to combine what they know afterwards",
  "the tests have no intruder; that something cannot be computed is a statement about all messages and all later computations",
  [SP,ED],[("blinding with M, N, S of unknown discrete logarithm; the shared element is hashed into the key",ED),("start_internal, finish",SP)],[],["keys returned by finish"])

p("R01","SRP: matching credentials always authenticate both sides with one key",
  "When a client and a server use the same group and hash, the server's verifier was computed from the same username, password and salt the client uses, and all handshake values arrive unmodified, then unless a public value is illegal the server accepts the client's proof, the client accepts the server's proof, and both hold the same key. This holds for every group, hash, credential and ephemeral value, including values whose big-endian form has leading zero bytes or is empty, zero, or larger than the modulus.",
  ["inputs","configurations"],"all groups (any modulus and generator), hashes, usernames, passwords, salts, ephemerals",
  "one random run with one group and hash; values with leading zero bytes occur once in 256 runs and are never targeted",
  [SC,SS,SU],[("compute_premaster_secret on both sides",SC),("compute_u/compute_k/compute_m1/compute_m2",SU)],[],["verify_client, verify_server, key()"])
p("R02","SRP: mismatched credentials or altered handshakes never authenticate",
  "If the client's username, password or salt differ from those behind the server's verifier (other than moving a colon between username and password), or a public value or proof is altered or substituted in transit, then the side that receives the resulting proof rejects it with the bad-proof error and the two keys differ. No proof computed without the matching credentials is accepted.",
  ["inputs","histories"],"all single and combined differences in credentials, verifier, public values and proofs, and proofs taken from other sessions",
  "one wrong password is tested (as a panic); other mismatches, altered public values and cross-session substitutions are not",
  [SC,SS,SU],[("compute_identity_hash, compute_x",SC),("verify_client",SS),("verify_server",SC)],[],["verify_client, verify_server, key()"])
p("R03","SRP: public values that are zero modulo N are rejected, all others processed",
  "The server rejects a client public value that is congruent to zero modulo the group modulus, and the client rejects such a server public value, with the illegal-parameter error naming the value, however it is encoded (empty, leading zeros, zero, any multiple of the modulus). Every other byte string is processed without error and without panicking, whatever the private ephemeral, verifier, salt, username and password are.",
  ["inputs"],"all byte strings as public values, all moduli, all private inputs",
  "the tests try only the one-byte encoding of zero, via should_panic; multiples of N and other encodings are not tried",
  [SC,SS],[("safeguards in process_reply",SC),("safeguards in process_reply",SS)],[],["Result of process_reply"])
p("R04","SRP: proof verification accepts exactly the one expected proof",
  "A side's verification of a received proof succeeds for exactly one byte string, the expected one, and fails with the bad-proof error for every other string: other contents, any single-bit change, any proper prefix or extension, the empty string, the verifier's own proof, and the other direction's proof. Verification does not change any state, so it can be repeated with the same outcome.",
  ["inputs","histories"],"all byte strings of all lengths as proofs, any sequence of verification calls",
  "the tests feed the right proof and one wrong one; truncated, extended, reflected and bit-flipped proofs are never tried",
  [SC,SS],[("verify_server",SC),("verify_client",SS)],[],["verify_client, verify_server"])
p("R05","SRP: computed values follow RFC 5054 for every input and group",
  "The private key, verifier, multiplier, public values, scrambling parameter and premaster secret equal the RFC 5054 formulas x = H(s|H(I|\":\"|P)), v = g^x, k = H(N|PAD(g)), A = g^a, B = k*v + g^b, u = H(PAD(A)|PAD(B)), S = (B - k*g^x)^(a+u*x) = (A*v^u)^b mod N for every group, hash and input, and the proofs are M1 = H(A|B|S) and M2 = H(A|M1|S) over minimal big-endian encodings.",
  ["inputs","configurations"],"all groups, hashes, credentials and ephemerals",
  "one RFC test vector with the 1024-bit group and SHA-1, in which no value has a leading zero byte",
  [SC,SS,SU],[("compute_x, compute_v, compute_a_pub, compute_premaster_secret",SC),("compute_b_pub, compute_premaster_secret",SS),("compute_u, compute_k, compute_m1, compute_m2",SU)],[],["return values of the public compute_* functions and process_reply"])
p("R06","SRP: the built-in groups are the RFC 5054 groups",
  "Each of the seven built-in groups has exactly the modulus and generator RFC 5054 gives for its bit length: a safe prime of the named size (N and (N-1)/2 prime) with the generator 2, 2, 2, 5, 5, 5, 19 for 1024 to 8192 bits.",
  ["configurations"],"all seven groups",
  "tests exercise two of the seven groups, and any modulus or generator shared by both sides passes an agreement test",
  [SG],[("group constants",SG)],[],["groups::G_*"])

p("R07","SRP: a stolen verifier, a false server or a recording gives nobody a key",
  "Whoever knows a user's verifier, salt and all public values but not the password cannot compute the key of a server's session nor a proof that the server accepts, whatever legal public value they send, in whatever encoding. Whoever answers a client in the server's place without the verifier cannot compute the client's key nor a proof that the client accepts, and learns from the client's proof whether at most one guessed password is right. The key of an honest handshake cannot be computed from the recorded values and a password that becomes known later.",
  ["inputs","fault_sequences","configurations"],"all public values an intruder can make from what they know, all groups and hashes, and all ways to combine what they know afterwards",
  "the tests have no intruder: they run honest handshakes and one with a wrong password",
  [SC,SS,SU],[("k, u and the two forms of the premaster secret",SC),("process_reply",SS),("compute_u, compute_k, compute_m1, compute_m2",SU)],[],["keys and results of verify_client / verify_server"])

p("A01","AuCPace: an honest run of every variant ends in one shared session key",
  "When client and server run any variant (plain or strong, ephemeral or long-term server key, negotiated or pre-established SSID, explicit or implicit authentication, heap or fixed-buffer hashing on either side) for a registered user with the registered password, the same channel identifier and undisturbed messages, every step succeeds and both sides return the same session key. This holds for every username, password, channel identifier, SSID, nonce length, and password hasher producing 32 or 64 bytes.",
  ["inputs","configurations"],"all variant combinations and all byte strings as username, password, channel identifier and SSID",
  "each variant is tested with one username and password, only with heap hashing, one hasher output size, one nonce length and one channel identifier",
  [AC,AS,AU],[("the client and server state machines",AC),("the server state machine",AS),("key derivation helpers",AU)],[],["session keys returned by both sides"])
p("A02","AuCPace: any disagreement leaves the parties without a common key",
  "If the parties differ in the credentials (the string username:password under which the verifier was registered), the negotiated or pre-established SSID, the channel identifier, or the augmentation information (server public value, salt, or hashing parameters) the client received, then their session keys differ and explicit authentication fails on whichever side receives the other's authenticator. Public keys replaced in transit by ones that do not lead to the same shared point have the same effect.",
  ["inputs","fault_sequences"],"all single and multiple disagreements and substitutions, in every variant",
  "no test exercises a failing run: wrong password, channel, SSID, salt, parameters or substituted public keys are all untested",
  [AC,AS,AU],[("SSID, PRS and generator derivation",AU),("authenticator checks",AS)],[],["session keys; results of the authenticator steps"])
p("A03","AuCPace: explicit authentication releases a key only for the right authenticator",
  "With explicit authentication a side returns its session key only when given exactly the peer's authenticator of the same session; for every other 64-byte value, including a single flipped bit, its own authenticator reflected, or one from another session, it returns the mutual-authentication error and no key. The server reveals its own authenticator only together with success.",
  ["inputs","histories"],"all 64-byte authenticators in both directions and all cross-session substitutions",
  "the tests only deliver correct authenticators",
  [AC,AS,AU],[("receive_server_authenticator",AC),("receive_client_authenticator",AS),("distinct H3/H4 tags",AU)],[],["results of the authenticator steps"])
p("A04","AuCPace: neutral group elements are rejected wherever they can be received",
  "A client rejects a neutral server public value, a neutral server public key and (strong variant) a blinded salt that unblinds to the neutral element; a server rejects a neutral client public key and (strong variant) a blinded point whose product with the user's exponent is neutral, for known and unknown users alike. Every entry point (heap and fixed-buffer, explicit and implicit, ephemeral and long-term key) reports the illegal-point error, and no non-neutral element is rejected.",
  ["inputs","configurations"],"all entry points that take a group element, all representations of the neutral element, all other elements",
  "eight of the entry points have a test with the neutral element; the fixed-buffer strong client with a neutral blinded salt, unknown users, and acceptance of all other elements are not tested",
  [AC,AS],[("is_identity checks",AC),("is_identity checks",AS)],[],["Result of generate_cpace*, generate_client_info_*, receive_*_pubkey, implicit_auth"])
p("A05","AuCPace: unknown users get a consistent decoy and can never authenticate",
  "For a username without a stored verifier the server answers with the same kind of message as for a registered user. The decoy salt (strong variant: the decoy salt exponent), and in partial augmentation mode the public value, are the same every time the same server is asked about the same name and different for different names and different servers. The run then continues normally but no client can authenticate: the server's password-related string is fresh secret randomness in every run.",
  ["inputs","histories"],"all unregistered usernames, any sequence of logins, all variants, any number of server instances",
  "no test queries an unknown user",
  [AS],[("lookup_failed, lookup_failed_strong",AS),("per-server secret",AS)],[("server secret","keys the decoys",AS)],["AugmentationInfo / StrongAugmentationInfo messages; authenticator results"])
p("A06","AuCPace: SSIDs are length-checked and bind both parties' contributions",
  "Both sides refuse a pre-established SSID shorter than 16 bytes with the insecure-SSID error and accept every other one. Runs of the two sides share a session key only if they hold the same pre-established SSID bytes or the same pair of nonces in the same roles.",
  ["inputs"],"all SSID byte strings of all lengths, all nonce pairs including swapped and repeated nonces",
  "the tests try one 8-byte and one 27-byte SSID and never mismatched, swapped or boundary ones",
  [AC,AS,AU],[("begin_prestablished_ssid",AC),("begin_prestablished_ssid",AS),("compute_ssid",AU)],[],["Result of begin_prestablished_ssid; session keys"])
p("A07","AuCPace: fixed-buffer and heap hashing agree and fail only as documented",
  "Hashing with a caller-sized buffer gives the same result as hashing on the heap whenever username length plus password length plus one fits the buffer, and otherwise reports the too-long error without panicking. Whatever the password hasher does, registration and login report it: its own error is passed on unchanged, a missing output is the empty-hash error, an output of any size other than 32 or 64 bytes is the invalid-size error.",
  ["inputs","configurations","fault_sequences"],"all username and password lengths, all buffer sizes, all hasher outputs and failures, all six entry points",
  "one comparison for one username and password; no boundary, no hasher failure and no odd output size is tested",
  [AC,AU],[("hash_password, hash_password_alloc",AC),("scalar_from_hash",AU)],[],["Result of register*, generate_cpace*"])
p("A08","AuCPace: registration yields exactly the verifier that later logins need",
  "A registration message carries the given username, the given hashing parameters, a fresh salt (strong variant: a fresh secret exponent that determines the salt together with username and password), and the group element B^w, w being the hash of username:password under that salt and those parameters. It depends on nothing else, so that re-registering replaces the credentials completely: afterwards the new password logs in and the old one does not.",
  ["inputs","histories"],"all usernames, passwords, parameters and sequences of registrations, password changes and logins",
  "tests register one user once; password changes, several users and verifier values are untested",
  [AC],[("register, register_strong, register_alloc, register_alloc_strong, generate_salt_strong",AC)],[],["Registration / StrongRegistration messages; later logins"])
p("A09","AuCPace: all derived values follow the documented protocol byte for byte",
  "For every input, the SSID, password-related string, generator, public keys, first session key, authenticators and session key are those of the documented protocol over ristretto255 with the hash H0..H5 tagged by a four-byte little-endian index (and in the strong variant the blinded point, its product with the user's exponent and the unblinded salt), so that independent implementations of the documented formulas interoperate. The named default client and server are the instantiations documented (SHA-512, scrypt, the system's generator, nonces of 16 bytes).",
  ["inputs","configurations"],"all inputs and all variants",
  "the tests compare the two sides with each other only; a change made to both sides alike passes every test",
  [AC,AS,AU],[("H0..H5, compute_ssid, generate_keypair, compute_first_session_key, compute_authenticator_messages, compute_session_key",AU),("start_augmentation_strong, generate_cpace*",AC),("generate_prs*",AS)],[],["every message field and session key"])
p("A10","AuCPace: every secret and nonce is fresh from the supplied generator",
  "Nonces, ephemeral keys, blinding values, salts, secret exponents, long-term keys and decoy secrets are drawn anew from the random generator the caller supplied for that purpose, with its full output, on every call; no two sessions of one process share any of them and none is constant or derived from other inputs. Sessions with identical inputs therefore never share a message or a session key.",
  ["histories","inputs"],"any number of sessions and registrations in one process, all generator outputs",
  "tests use the operating system's generator once per run and never compare two sessions",
  [AC,AS,AU],[("generate_nonce, generate_keypair, generate_server_keypair",AU),("blinding value, salt and exponent generation",AC),("ServerSecret",AS)],[],["message fields across sessions, generator transcript"])
p("A11","AuCPace: messages survive serialisation unchanged",
  "Every client and server message of every variant, once serialised with the serde support and deserialised by the peer (in self-describing-free binary formats, from a byte slice), equals the message that was sent in every field. Delivering messages in serialised form therefore never changes the outcome of a run, and malformed bytes lead to an error, not a panic.",
  ["inputs","configurations"],"all messages of all variants, all field contents, and corrupted or truncated encodings",
  "only the examples serialise, they are not run by the tests, and each with a single input",
  [AC,AS,AU],[("Serialize/Deserialize on ClientMessage",AC),("Serialize/Deserialize on ServerMessage",AS),("serde_saltstring, serde_paramsstring",AU)],[],["messages after a round trip; outcome of runs over a serialised channel"])
p("A12","AuCPace: stolen verifiers, false servers, guesses, recordings give nobody a key",
  "Whoever knows a user's verifier and salt but neither the password nor the server's private key cannot find the password-related string of a session with the server, and nobody can for a name the server does not know; whoever answers a client without the verifier cannot find the client's. Whoever lacks the password-related string cannot compute a session key or an authenticator that is accepted, whatever public key they send; a false server learns whether one guessed password is right and, even trying others afterwards, nothing more. The keys of a session between honest sides cannot be computed from the recorded messages and a password that becomes known later, nor from the secrets and keys of other sessions. In the strong variant one answer of the server reveals the salt of one password only.",
  ["inputs","fault_sequences","configurations"],"plain and strong, full and partial augmentation; all messages an intruder can make from what they know, and all ways to combine what they know afterwards",
  "the tests have no intruder: they run honest sessions and sessions with neutral points",
  [AC,AS,AU],[("generate_prs*, generator and key derivation",AS),("generate_cpace*, blinding",AC),("H1..H5",AU)],[("stored verifier, secret exponent, long-term key","what a thief may get",AS)],["session keys, authenticator results, salts"])
p("X01","All protocols: concurrent sessions do not influence each other",
  "However the steps of any number of sessions of the same or different users are interleaved in one process, and whatever other sessions receive, fail or are abandoned, each session's messages and result are exactly those determined by its own inputs, its own random choices and the messages delivered to it. In particular a failed, tampered or abandoned session leaves every other and every later session unaffected.",
  ["schedules","histories"],"all interleavings of several sessions, with failures and cross-delivered messages",
  "tests run a single session at a time",
  [SP,SC,SS,AC,AS],[("sessions own their state; shared base objects hold only the generator and server secret",AS)],[],["all outcomes in interleaved runs"])

p("X02","All protocols: outcomes do not depend on how the crates are built",
  "What an operation of SPAKE2, SRP or AuCPace gives is determined by its inputs, the messages delivered and the random bytes it draws. It is the same whichever of the crates' optional cargo features are on (alloc, strong_aucpace, partial_augmentation, getrandom, std, zeroize, serde, scrypt, sha2), with or without debug assertions and overflow checks, and on machines of other word size and byte order. A feature only adds operations; so two parties whose builds both offer a variant interoperate, and every combination of features compiles.",
  ["configurations","inputs"],"all feature sets, both profiles and all platforms, for every input",
  "tests run with one set of features, with debug assertions, on one machine",
  [SP,SC,SS,AC,AS],[("cfg attributes select operations, never behaviour",AC),("integers are hashed as fixed-width little-endian",AS)],[],["outcomes of the same session in different builds"])
p("X03","All protocols: every operation answers, and refuses only with a reason",
  "Whatever an operation of SPAKE2, SRP or AuCPace is given, strings of any length and content, any stored record, any message a peer can send, it returns: it neither panics nor hangs. It succeeds unless an argument of its own justifies a documented error (a SPAKE2 message of wrong length, side or encoding, or the session's own; an SRP public value that is zero modulo N; a wrong proof or authenticator; a pre-established SSID of less than 16 bytes; a neutral group element; user name and password too long for the buffer; a failing password hasher), and then it returns an error that one of its arguments justifies. Parties to whom everything is delivered as it was sent get to the end.",
  ["inputs","fault_sequences","configurations"],"all arguments of all operations of all variants, alone and in pairs, at every step of a session",
  "the tests use short texts and three or four bad messages; that nothing a stranger sends stops a server is a statement about all of them",
  [SP,ED,SC,SS,SU,AC,AS,AU],[("checks in finish",SP),("process_reply, verify_client, verify_server",SS),("errors of every step",AC),("errors of every step",AS)],[],["status of every operation"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
