------------------------------- MODULE SrpMC --------------------------------
(***************************************************************************)
(* SRP handshakes of two clients and two servers under an adversary who    *)
(* replaces public values, salts and proofs.  The verifier on the servers  *)
(* was registered with the base credentials; client c1's may deviate.      *)
(* Dev bounds how often the run departs from two honest handshakes         *)
(* c1 - s1 and c2 - s2.                                                    *)
(***************************************************************************)
EXTENDS SrpSym, Strings, Json

CONSTANTS Clients, Servers,   \* names, sequences of the same length
          MaxDev, Record, Ordered, Rich

VARIABLES cred,    \* client -> [user, pw] or No
          cr,      \* client -> reply of process_reply (with what it was given) or No
          sv,      \* server -> [b] or No
          sr,      \* server -> reply or No
          cv, vv,  \* client / server -> result of verification or No
          dev, hist

vars == <<cred, cr, sv, sr, cv, vv, dev, hist>>

Some(r) == [k |-> "some", r |-> r]
No      == [k |-> "none"]
Ids(q)  == {q[i] : i \in DOMAIN q}
Before(q, i, f) == \A j \in 1 .. i - 1 : f[q[j]] # No
All(q, f)       == \A i \in Ids(q) : f[i] # No
Log(ev) == hist' = IF Record THEN Append(hist, ev) ELSE hist
Ed(s)   == IF Rich THEN Edits(s) ELSE FewEdits(s)

User0 == <<"u1", "u2">>
Pw0   == <<"p1", "p2">>
Salt0 == <<"s">>
V0    == Sr!Verifier(User0, Pw0, Salt0)

A(i) == PAtom(Rnd(i, "a"))
B(j) == PAtom(Rnd(j, "b"))

(* what a client may believe about its credentials *)
CredVars ==
    {[user |-> u, pw |-> Pw0] : u \in Ed(User0)} \cup {[user |-> User0, pw |-> p] : p \in Ed(Pw0)}
    \cup { [user |-> Pw0, pw |-> User0],
           [user |-> <<"u1">>, pw |-> <<"u2", "p1", "p2">>],
           [user |-> <<"u1", "u2", "p1">>, pw |-> <<"p2">>],
           [user |-> User0 \o <<"colon">>, pw |-> Pw0],
           [user |-> User0, pw |-> <<"colon">> \o Pw0],
           [user |-> <<>>, pw |-> User0 \o <<"colon">> \o Pw0],
           [user |-> User0 \o <<"colon">> \o Pw0, pw |-> <<>>],
           [user |-> <<"u1">>, pw |-> <<"u2", "colon", "p1", "p2">>] }
SaltVars == Ed(Salt0) \cup {Salt0 \o User0}

(***************************************************************************)
(* Tampering with public values: the residue and the multiple of N.        *)
(***************************************************************************)
ValOps == {"zero", "empty", "zeros", "N", "N2", "Nlz", "N256", "one", "Nm1", "Np1", "plusN", "plus2N",
           "plusNbig", "neg", "timesg", "lz", "lz9", "lz300", "rand", "randbig", "flip", "g", "trunc", "ext"}
Same   == {"none", "lz", "lz9", "lz300"}
Val(i, o, n) ==
    CASE o \in {"none", "lz", "lz9", "lz300"} -> i
      [] o \in {"zero", "empty", "zeros"}     -> CanonT(PZero)
      [] o = "N"        -> IntT(PZero, "plusN")
      [] o = "Nlz"      -> IntT(PZero, "plusN")
      [] o = "N2"       -> IntT(PZero, "plus2N")
      [] o = "N256"     -> IntT(PZero, "plusNbig")
      [] o = "one"      -> CanonT(POne)
      [] o = "Nm1"      -> CanonT(PNeg(POne))
      [] o = "Np1"      -> IntT(POne, "plusN")
      [] o = "plusN"    -> IntT(ResT(i), "plusN")
      [] o = "plus2N"   -> IntT(ResT(i), "plus2N")
      [] o = "plusNbig" -> IntT(ResT(i), "plusNbig")
      [] o = "neg"      -> CanonT(PNeg(ResT(i)))
      [] o = "timesg"   -> CanonT(PMul(ResT(i), GPowT(POne)))
      [] o = "g"        -> CanonT(GPowT(POne))
      [] o \in {"rand", "randbig", "flip", "trunc", "ext"} -> IntT(Unknown(Leaf(o, <<n>>)), "any")

ProofOps == {"none", "flip", "empty", "trunc", "td", "ext", "lz", "zeros", "rev"}

-----------------------------------------------------------------------------
Init == /\ cred = [i \in Ids(Clients) |-> No] /\ cr = cred /\ cv = cred
        /\ sv = [j \in Ids(Servers) |-> No] /\ sr = sv /\ vv = sv
        /\ dev = 0 /\ hist = <<[op |-> "register", user |-> User0, pw |-> Pw0, salt |-> Salt0,
                                out |-> Out(CanonT(V0))]>>

CStart(n) ==
    LET i == Clients[n] IN
    /\ cred[i] = No
    /\ Ordered => Before(Clients, n, cred)
    /\ \E c \in {[user |-> User0, pw |-> Pw0]} \cup (IF n = 1 THEN CredVars ELSE {}) :
        LET d == IF c = [user |-> User0, pw |-> Pw0] THEN 0 ELSE 1 IN
        /\ dev + d <= MaxDev /\ dev' = dev + d
        /\ cred' = [cred EXCEPT ![i] = Some(c)]
        /\ Log([op |-> "cstart", s |-> i, user |-> c.user, pw |-> c.pw, out |-> Out(Sr!APub(A(i)))])
    /\ UNCHANGED <<cr, sv, sr, cv, vv>>

SStart(n) ==
    LET j == Servers[n] IN
    /\ sv[j] = No
    /\ Ordered => All(Clients, cred) /\ Before(Servers, n, sv)
    /\ sv' = [sv EXCEPT ![j] = Some([b |-> B(j)])]
    /\ Log([op |-> "sstart", s |-> j, out |-> Out(Sr!BPub(B(j), V0))])
    /\ UNCHANGED <<cred, cr, sr, cv, vv, dev>>

SReply(n) ==
    LET j == Servers[n] IN
    /\ sv[j] # No /\ sr[j] = No
    /\ Ordered => All(Servers, sv) /\ Before(Servers, n, sr)
    /\ \E m \in DOMAIN Clients, o \in {"none"} \cup ValOps :
        LET i == Clients[m]
            d == (IF m = n THEN 0 ELSE 1) + (IF o = "none" THEN 0 ELSE 1)
            a == Val(Sr!APub(A(i)), o, j)
            r == Sr!ServerReply(V0, B(j), a) IN
        /\ cred[i] # No
        /\ dev + d <= MaxDev /\ dev' = dev + d
        /\ sr' = [sr EXCEPT ![j] = Some([r |-> r, a |-> a])]
        /\ Log([op |-> "sreply", s |-> j, src |-> i, how |-> o, status |-> r.status,
                m1 |-> Out(r.m1), m2 |-> Out(r.m2), key |-> Out(r.key)])
    /\ UNCHANGED <<cred, cr, sv, cv, vv>>

CReply(n) ==
    LET i == Clients[n] IN
    /\ cred[i] # No /\ cr[i] = No
    /\ Ordered => All(Servers, sr) /\ Before(Clients, n, cr)
    /\ \E m \in DOMAIN Servers, o \in {"none"} \cup ValOps, s \in {Salt0} \cup (IF n = 1 THEN SaltVars ELSE {}) :
        LET j == Servers[m]
            d == (IF m = n THEN 0 ELSE 1) + (IF o = "none" THEN 0 ELSE 1) + (IF s = Salt0 THEN 0 ELSE 1)
            b == Val(Sr!BPub(B(j), V0), o, i)
            r == Sr!ClientReply(A(i), cred[i].r.user, cred[i].r.pw, s, b) IN
        /\ sv[j] # No
        /\ dev + d <= MaxDev /\ dev' = dev + d
        /\ cr' = [cr EXCEPT ![i] = Some([r |-> r, b |-> b, salt |-> s])]
        /\ Log([op |-> "creply", s |-> i, src |-> j, how |-> o, salt |-> s, status |-> r.status,
                m1 |-> Out(r.m1), m2 |-> Out(r.m2), key |-> Out(r.key)])
    /\ UNCHANGED <<cred, sv, sr, cv, vv>>

(* a changed proof is a value that no hash has *)
Changed(t, o) == IF o = "none" THEN t ELSE Node("changed", <<t, Leaf(o, <<>>)>>)
SentProof(x, o, fromClient) == Changed(IF fromClient THEN x.m1 ELSE x.m2, o)

Replied(f, i) == f[i] # No /\ f[i].r.r.status = "Ok"

(* the server verifies the proof of any client or server *)
SVerify(n) ==
    LET j == Servers[n] IN
    /\ Replied(sr, j) /\ vv[j] = No
    /\ Ordered => All(Clients, cr) /\ (\A k \in 1 .. n - 1 : ~Replied(sr, Servers[k]) \/ vv[Servers[k]] # No)
    /\ \E m \in DOMAIN Clients, o \in ProofOps, cl \in BOOLEAN :
        LET src == IF cl THEN Clients[m] ELSE Servers[m]
            f   == IF cl THEN cr ELSE sr
            d   == (IF cl /\ m = n THEN 0 ELSE 1) + (IF o = "none" THEN 0 ELSE 1) IN
        /\ Replied(f, src)
        /\ dev + d <= MaxDev /\ dev' = dev + d
        /\ LET p == SentProof(f[src].r.r, o, cl)
               st == Sr!Verify(sr[j].r.r.m1, p)
           IN /\ vv' = [vv EXCEPT ![j] = Some([status |-> st, src |-> src, p |-> p])]
              /\ Log([op |-> "sverify", s |-> j, src |-> src, how |-> o, status |-> st])
    /\ UNCHANGED <<cred, cr, sv, sr, cv>>

CVerify(n) ==
    LET i == Clients[n] IN
    /\ Replied(cr, i) /\ cv[i] = No
    /\ Ordered => (\A j \in Ids(Servers) : ~Replied(sr, j) \/ vv[j] # No)
                  /\ (\A k \in 1 .. n - 1 : ~Replied(cr, Clients[k]) \/ cv[Clients[k]] # No)
    /\ \E m \in DOMAIN Servers, o \in ProofOps, se \in BOOLEAN :
        LET src == IF se THEN Servers[m] ELSE Clients[m]
            f   == IF se THEN sr ELSE cr
            d   == (IF se /\ m = n THEN 0 ELSE 1) + (IF o = "none" THEN 0 ELSE 1) IN
        /\ Replied(f, src)
        /\ dev + d <= MaxDev /\ dev' = dev + d
        /\ LET p == SentProof(f[src].r.r, o, ~se)
               st == Sr!Verify(cr[i].r.r.m2, p)
           IN /\ cv' = [cv EXCEPT ![i] = Some([status |-> st, src |-> src, p |-> p])]
              /\ Log([op |-> "cverify", s |-> i, src |-> src, how |-> o, status |-> st])
    /\ UNCHANGED <<cred, cr, sv, sr, vv>>

Next == \E n \in DOMAIN Clients : CStart(n) \/ SStart(n) \/ SReply(n) \/ CReply(n) \/ SVerify(n) \/ CVerify(n)

Spec == Init /\ [][Next]_vars

Emit == (Record /\ ~ENABLED Next) => PrintT(ToJson(hist))

-----------------------------------------------------------------------------
(* The properties. *)

(* the credentials are those behind the verifier (up to where the colon is) *)
Matches(i) == /\ cred[i].r.user \o <<"colon">> \o cred[i].r.pw = User0 \o <<"colon">> \o Pw0
              /\ cr[i] # No /\ cr[i].r.salt = Salt0

Undisturbed(i, j) == /\ cr[i] # No /\ sr[j] # No
                     /\ sr[j].r.a = Sr!APub(A(i)) /\ cr[i].r.b = Sr!BPub(B(j), V0)

Agreement ==
    \A i \in Ids(Clients), j \in Ids(Servers) :
        (Undisturbed(i, j) /\ Matches(i)) =>
            /\ Replied(cr, i) /\ Replied(sr, j)
            /\ cr[i].r.r.key = sr[j].r.r.key
            /\ sr[j].r.r.m1 = cr[i].r.r.m1 /\ sr[j].r.r.m2 = cr[i].r.r.m2

Binding ==
    \A i \in Ids(Clients), j \in Ids(Servers) :
        (Replied(cr, i) /\ Replied(sr, j) /\ ~(Undisturbed(i, j) /\ Matches(i))) =>
            /\ cr[i].r.r.key # sr[j].r.r.key
            /\ sr[j].r.r.m1 # cr[i].r.r.m1 /\ sr[j].r.r.m2 # cr[i].r.r.m2

(* a side accepts nothing but the proof of a partner with its view *)
Authentic ==
    /\ \A j \in Ids(Servers) : (vv[j] # No /\ vv[j].r.status = "Ok") =>
          \E i \in Ids(Clients) : Replied(cr, i) /\ vv[j].r.p = cr[i].r.r.m1 /\ Undisturbed(i, j) /\ Matches(i)
    /\ \A i \in Ids(Clients) : (cv[i] # No /\ cv[i].r.status = "Ok") =>
          \E j \in Ids(Servers) : Replied(sr, j) /\ cv[i].r.p = sr[j].r.r.m2 /\ Undisturbed(i, j) /\ Matches(i)

Legal ==
    /\ \A i \in Ids(Clients) : cr[i] # No => (cr[i].r.r.status = "Ok" <=> ResT(cr[i].r.b) # PZero)
    /\ \A j \in Ids(Servers) : sr[j] # No => (sr[j].r.r.status = "Ok" <=> ResT(sr[j].r.a) # PZero)
=============================================================================
