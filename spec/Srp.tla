-------------------------------- MODULE Srp ---------------------------------
(***************************************************************************)
(* SRP-6a as implemented by srp/src/{client,server,utils}.rs: the steps of *)
(* both sides as operators, parameterised by the arithmetic and the hash.  *)
(* SrpSym gives them symbolically, SrpToy by numbers and a small hash.     *)
(*                                                                         *)
(* A residue is an element of the ring Z_N, an exponent a natural number,  *)
(* a public value an integer: Canon(r) is the representative 0..N-1 of a   *)
(* residue, Res(i) the residue of an integer.  How many leading zero bytes *)
(* a public value is sent with does not matter.                            *)
(***************************************************************************)
EXTENDS Terms

CONSTANTS
    GPow(_),                        \* g^x, a residue
    RAdd(_, _), RSub(_, _), RMul(_, _), RPow(_, _), RZero,
    XAdd(_, _), XMul(_, _),         \* exponents
    Res(_), Canon(_),
    HK,                             \* k, a residue
    HX(_, _, _),                    \* x from salt, username, password: an exponent
    HU(_, _),                       \* u from A, B: an exponent
    HM1(_, _, _), HM2(_, _, _),     \* proofs
    Bytes(_)                        \* a residue as it is returned to the caller

(* compute_verifier *)
Verifier(user, pw, salt) == GPow(HX(salt, user, pw))

(* compute_public_ephemeral of client and server *)
APub(a)    == Canon(GPow(a))
BPub(b, v) == Canon(RAdd(RMul(HK, v), GPow(b)))

NoReply(st) == [status |-> st, m1 |-> None, m2 |-> None, key |-> None]
Reply(A, B, S) ==
    LET m1 == HM1(A, B, S)
    IN  [status |-> "Ok", m1 |-> m1, m2 |-> HM2(A, m1, S), key |-> Bytes(S)]

(* process_reply of the server, given the client's public value *)
ServerPremaster(v, u, b, A) == RPow(RMul(Res(A), RPow(v, u)), b)
ServerReply(v, b, A) ==
    IF Res(A) = RZero THEN NoReply("IllegalParameter a_pub")
    ELSE LET B == BPub(b, v)
             u == HU(A, B)
         IN  Reply(A, B, ServerPremaster(v, u, b, A))

(* process_reply of the client, given the server's public value and the salt *)
ClientPremaster(x, u, a, B) == RPow(RSub(Res(B), RMul(HK, GPow(x))), XAdd(a, XMul(u, x)))
ClientReply(a, user, pw, salt, B) ==
    IF Res(B) = RZero THEN NoReply("IllegalParameter b_pub")
    ELSE LET A == APub(a)
             u == HU(A, B)
         IN  Reply(A, B, ClientPremaster(HX(salt, user, pw), u, a, B))

(* verify_client and verify_server, with the proof expected and the one received *)
Verify(want, got) == IF want = got THEN "Ok" ELSE "BadRecordMac"
=============================================================================
