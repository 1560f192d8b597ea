------------------------------- MODULE SrpToy -------------------------------
(***************************************************************************)
(* Srp over numbers: a small safe prime N and a small hash.  The harness   *)
(* runs the same handshakes through SrpClient<ToyDigest> with              *)
(* SrpGroup { n: N, g: G } and compares every value.  All ephemeral values *)
(* and all public values 0..3N occur, hence also zero values, values with  *)
(* short encodings, digests with leading zero bytes, and collisions.       *)
(*                                                                         *)
(* P is the protocol with the padding of RFC 5054 in u = H(PAD(A)|PAD(B)), *)
(* R is the one without it (a known finding); they differ where A or B is  *)
(* short.                                                                  *)
(***************************************************************************)
EXTENDS Terms, Json

CONSTANTS N, G, Small, As, Bs, Vals

RECURSIVE ByteSeq(_)
ByteSeq(n)  == IF n < 256 THEN <<n>> ELSE Append(ByteSeq(n \div 256), n % 256)
NLen        == Len(ByteSeq(N))
Zeros(n)    == [i \in 1 .. n |-> 0]
Pad(s)      == IF Len(s) < NLen THEN Zeros(NLen - Len(s)) \o s ELSE s

RECURSIVE Fold(_, _)
Fold(s, h)  == IF s = <<>> THEN h ELSE Fold(Tail(s), (h * 33 + Head(s) + 1) % 1021)
H(s)        == Fold(s, 7)
HBytes(s)   == LET h == H(s) IN <<h \div 256, h % 256>>

RECURSIVE ModPow(_, _)
ModPow(b, e) == IF e = 0 THEN 1 % N
                ELSE LET h == ModPow((b * b) % N, e \div 2)
                     IN  IF e % 2 = 1 THEN (h * (b % N)) % N ELSE h

Colon       == <<58>>
GP(x)       == ModPow(G, x)
AddN(x, y)  == (x + y) % N
SubN(x, y)  == ((x % N) + (N - (y % N))) % N
MulN(x, y)  == ((x % N) * (y % N)) % N
PowN(x, e)  == ModPow(x % N, e)
XPlus(x, y) == x + y
XTimes(x, y) == x * y
ResN(i)     == i % N
CanonN(r)   == r
KVal        == H(ByteSeq(N) \o Pad(ByteSeq(G)))
KN          == KVal % N
XVal(s, u, p) == H(s \o HBytes(u \o Colon \o p))
UPad(A, B)  == H(Pad(ByteSeq(A)) \o Pad(ByteSeq(B)))
URaw(A, B)  == H(ByteSeq(A) \o ByteSeq(B))
M1Val(A, B, S) == HBytes(ByteSeq(A) \o ByteSeq(B) \o ByteSeq(S))
M2Val(A, m, S) == HBytes(ByteSeq(A) \o m \o ByteSeq(S))

P == INSTANCE Srp WITH
        GPow <- GP, RAdd <- AddN, RSub <- SubN, RMul <- MulN, RPow <- PowN, RZero <- 0,
        XAdd <- XPlus, XMul <- XTimes, Res <- ResN, Canon <- CanonN,
        HK <- KN, HX <- XVal, HU <- UPad, HM1 <- M1Val, HM2 <- M2Val, Bytes <- ByteSeq
R == INSTANCE Srp WITH
        GPow <- GP, RAdd <- AddN, RSub <- SubN, RMul <- MulN, RPow <- PowN, RZero <- 0,
        XAdd <- XPlus, XMul <- XTimes, Res <- ResN, Canon <- CanonN,
        HK <- KN, HX <- XVal, HU <- URaw, HM1 <- M1Val, HM2 <- M2Val, Bytes <- ByteSeq

Creds == { [user |-> <<97>>, pw |-> <<98, 99>>, salt |-> <<1, 2>>],
           [user |-> <<>>, pw |-> <<>>, salt |-> <<>>],
           [user |-> <<97, 108>>, pw |-> <<0, 255>>, salt |-> <<0, 0, 7>>] }

VARIABLES c, done
vars == <<c, done>>

(* A or B is -1 where it is the honest one *)
Init == done = FALSE /\
  \/ \E cr \in Creds, a \in As, b \in Bs :
          c = [cr |-> cr, a |-> a, b |-> b, A |-> -1, B |-> -1, kind |-> "honest"]
  \/ \E cr \in Creds, a \in Small, x \in Vals :
          c = [cr |-> cr, a |-> a, b |-> 3, A |-> -1, B |-> x, kind |-> "B"]
  \/ \E cr \in Creds, b \in Small, x \in Vals :
          c = [cr |-> cr, a |-> 2, b |-> b, A |-> x, B |-> -1, kind |-> "A"]
  \/ \E cr \in {CHOOSE x \in Creds : TRUE}, v \in 0 .. N + 5, b \in Small :
          c = [cr |-> cr, a |-> 2, b |-> b, A |-> -1, B |-> -1, v |-> v, kind |-> "v"]
Next == ~done /\ done' = TRUE /\ UNCHANGED c

V  == IF c.kind = "v" THEN c.v ELSE P!Verifier(c.cr.user, c.cr.pw, c.cr.salt)
A0 == P!APub(c.a)
B0 == P!BPub(c.b, V)
AD == IF c.A = -1 THEN A0 ELSE c.A
BD == IF c.B = -1 THEN B0 ELSE c.B
SP == P!ServerReply(V, c.b, AD)
SR == R!ServerReply(V, c.b, AD)
CP == P!ClientReply(c.a, c.cr.user, c.cr.pw, c.cr.salt, BD)
CR == R!ClientReply(c.a, c.cr.user, c.cr.pw, c.cr.salt, BD)

OutR(r) == IF r.status = "Ok" THEN r ELSE [status |-> r.status]

Emit == done => PrintT(ToJson([n |-> N, g |-> G, kind |-> c.kind, user |-> c.cr.user, pw |-> c.cr.pw, salt |-> c.cr.salt,
                       a |-> c.a, b |-> c.b, x |-> XVal(c.cr.salt, c.cr.user, c.cr.pw), k |-> KVal, v |-> V,
                       A |-> A0, B |-> B0, AD |-> AD, BD |-> BD,
                       us |-> UPad(AD, B0), uc |-> UPad(A0, BD),
                       sp |-> OutR(SP), sr |-> OutR(SR), cp |-> OutR(CP), cr |-> OutR(CR)]))

(* every honest handshake agrees, unless B is illegal *)
Agreement == (done /\ c.kind = "honest") =>
    /\ SP.status = "Ok"
    /\ IF B0 = 0 THEN CP.status = "IllegalParameter b_pub" ELSE CP = SP
    /\ (CP.status = "Ok") = (CR.status = "Ok") /\ (CR.status = "Ok" => CR = SR)
Legal == done =>
         /\ SP.status = IF AD % N = 0 THEN "IllegalParameter a_pub" ELSE "Ok"
         /\ CP.status = IF BD % N = 0 THEN "IllegalParameter b_pub" ELSE "Ok"
=============================================================================
