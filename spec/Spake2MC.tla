------------------------------ MODULE Spake2MC ------------------------------
(***************************************************************************)
(* A network of SPAKE2 sessions under an adversary who delivers any        *)
(* session any message: another session's or its own, unmodified or        *)
(* tampered with.  The inputs of the sessions deviate from session s1's in *)
(* the ways given by Strings.  Dev bounds how often the run departs from   *)
(* an honest exchange.                                                     *)
(*                                                                         *)
(* With Record = TRUE the run is also kept in hist and printed when it is  *)
(* complete: these are the behaviours replayed into the implementation.    *)
(***************************************************************************)
EXTENDS Spake2Sym, Strings, Json

CONSTANTS Sids,          \* session names, sequence
          MaxDev,        \* deviations per run
          Record,        \* keep and print the history?
          Ordered,       \* start the sessions in order and finish them in order?
          Rich           \* all string edits, or few?

VARIABLES sess,          \* session name -> session, or None
          fin,           \* session name -> result of finish, or None
          dev,           \* deviations so far
          hist

vars == <<sess, fin, dev, hist>>

Ed(s) == IF Rich THEN Edits(s) ELSE FewEdits(s)

(* the inputs of s1, by role *)
Pw0      == <<"p">>
Ids0(r)  == IF r = "S" THEN <<<<"a1", "a2">>>> ELSE <<<<"a1", "a2">>, <<"b1", "b2">>>>

PwVars   == Ed(Pw0)
IdVars(r) ==
    IF r = "S" THEN {<<v>> : v \in Ed(<<"a1", "a2">>)}
    ELSE {<<v, <<"b1", "b2">>>> : v \in Ed(<<"a1", "a2">>)}
         \cup {<<<<"a1", "a2">>, v>> : v \in Ed(<<"b1", "b2">>)}
         \cup { <<<<"b1", "b2">>, <<"a1", "a2">>>>,      \* swapped
                <<<<"a1">>, <<"a2", "b1", "b2">>>>,      \* re-split
                <<<<"a1", "a2", "b1">>, <<"b2">>>>,
                <<<<"a1", "a2", "b1", "b2">>, <<>>>>,
                <<<<>>, <<"a1", "a2", "b1", "b2">>>>,
                <<<<"a1", "a2">>, <<"a1", "a2">>>> }

X(i)     == PAtom(Rnd(i, "x"))

(***************************************************************************)
(* Tampering.  Bodies stand for the elements they decode to, if any.       *)
(***************************************************************************)
Adv(n, i) == EBase(Leaf(n, <<i>>))
BodyOps  == {"junk", "flipund", "flipdec", "neg", "plusB", "plusU", "id", "cB", "cM", "cN", "cS",
             "t8", "pt8", "altid", "negid", "rand"}
LenOps   == {"empty", "one", "trunc", "body", "ext", "extnul", "dup", "long"}
TagOps   == {"A", "B", "S", "a", "b", "s", "C", "T", "nul", "ff", "hiA", "hiB", "hiS", "same~0", "same~4"}
Ops      == {<<"none", "">>} \cup {<<"body", o>> : o \in BodyOps}
            \cup {<<"len", o>> : o \in LenOps} \cup {<<"tag", o>> : o \in TagOps}

Body(m, o, i) ==
    LET e == m.body.a[1]
    IN CASE o = "junk"    -> Leaf("junk", <<i>>)
         [] o = "flipund" -> Leaf("flipund", <<i>>)
         [] o = "flipdec" -> EncT(Adv("flipdec", i))
         [] o = "rand"    -> EncT(Adv("rand", i))
         [] o = "neg"     -> EncT(EMul(PNeg(POne), e))
         [] o = "plusB"   -> EncT(EAdd(e, BB))
         [] o = "plusU"   -> EncT(EAdd(e, IF m.tag = "A" THEN BM ELSE IF m.tag = "B" THEN BN ELSE BS))
         [] o = "id"      -> EncT(EZero)
         [] o = "cB"      -> EncT(BB)
         [] o = "cM"      -> EncT(BM)
         [] o = "cN"      -> EncT(BN)
         [] o = "cS"      -> EncT(BS)
         [] o = "t8"      -> EncT(Adv("T8", i))
         [] o = "pt8"     -> EncT(EAdd(e, Adv("T8", i)))
         [] o = "altid"   -> Node("alt", <<EZero, Leaf("y1p", <<>>)>>)
         [] o = "negid"   -> Node("alt", <<EZero, Leaf("neg0", <<>>)>>)

Tamper(m, op, i) ==
    CASE op[1] = "none" -> m
      [] op[1] = "body" -> [m EXCEPT !.body = Body(m, op[2], i)]
      [] op[1] = "len"  -> [m EXCEPT !.len = op[2]]
      [] op[1] = "tag"  -> [m EXCEPT !.tag = IF op[2] \in {"same~0", "same~4"} THEN m.tag \o op[2] ELSE op[2]]

-----------------------------------------------------------------------------
Ids == {Sids[i] : i \in DOMAIN Sids}
Before(i, f) == \A j \in 1 .. i - 1 : f[Sids[j]].k # "none"

(* wrap, so that session records and None are comparable *)
Some(r) == [k |-> "some", r |-> r]
No      == [k |-> "none"]

Log(ev) == hist' = IF Record THEN Append(hist, ev) ELSE hist

Init == /\ sess = [i \in Ids |-> No]
        /\ fin  = [i \in Ids |-> No]
        /\ dev = 0
        /\ hist = <<>>

DoStart(i, role, pw, ids, d) ==
    LET s == Sp!Session(role, pw, ids, X(i))
    IN  /\ sess[i] = No
        /\ dev + d <= MaxDev
        /\ sess' = [sess EXCEPT ![i] = Some(s)]
        /\ dev' = dev + d
        /\ UNCHANGED fin
        /\ Log([op |-> "start", s |-> i, role |-> role, pw |-> pw, ids |-> ids,
                out |-> Out(Sp!MsgTerm(Sp!Message(s))), debug |-> Out(Sp!DebugTerm(s))])

(* session 1 has the base inputs; the later ones run the complementary or any *)
(* other role with the same or with different inputs                          *)
Start(n) ==
    LET i == Sids[n]
    IN  /\ Ordered => Before(n, sess)
        /\ \/ /\ n = 1
              /\ \E r \in Sp!Roles : DoStart(i, r, Pw0, Ids0(r), 0)
           \/ /\ n > 1
              /\ sess[Sids[1]] # No
              /\ LET r1 == sess[Sids[1]].r.role
                 IN \E r \in Sp!Roles :
                     LET d0 == IF r = Sp!PeerTag(r1) THEN 0 ELSE 1
                     IN \/ DoStart(i, r, Pw0, Ids0(r), d0)
                        \/ \E pw \in PwVars : DoStart(i, r, pw, Ids0(r), d0 + 1)
                        \/ \E ids \in IdVars(r) : DoStart(i, r, Pw0, ids, d0 + 1)

Finish(n) ==
    LET i == Sids[n]
    IN  /\ sess[i] # No /\ fin[i] = No
        /\ Ordered => (\A j \in Ids : sess[j] # No) /\ Before(n, fin)
        /\ \E j \in Ids, op \in Ops :
             /\ sess[j] # No
             /\ LET (* session 1 and 2 are meant for each other, the rest for session 1 *)
                    meant == IF n = 1 THEN Sids[2] ELSE Sids[1]
                    d == (IF j = meant THEN 0 ELSE 1) + (IF op[1] = "none" THEN 0 ELSE 1)
                    m == Tamper(Sp!Message(sess[j].r), op, i)
                    r == Sp!Finish(sess[i].r, m)
                IN  /\ dev + d <= MaxDev
                    /\ fin' = [fin EXCEPT ![i] = Some([status |-> r.status, key |-> r.key, m |-> m])]
                    /\ dev' = dev + d
                    /\ UNCHANGED sess
                    /\ Log([op |-> "finish", s |-> i, src |-> j, how |-> op,
                            status |-> r.status, key |-> Out(r.key)])

Next == \E n \in DOMAIN Sids : Start(n) \/ Finish(n)

Spec == Init /\ [][Next]_vars

Complete == \A i \in Ids : fin[i] # No

(* Two messages of one role under one password differ by the difference of *)
(* the ephemeral scalars, times the generator, whatever the blinding is:   *)
(* printed so that the harness can look for the scalars among the bytes    *)
(* that the sessions drew.                                                 *)
Diff(i, j) == EAdd(sess[i].r.body.a[1], EMul(PNeg(POne), sess[j].r.body.a[1]))
Blinds == LET ps == SetSeq({p \in Ids \X Ids : /\ p[1] # p[2]
                                              /\ sess[p[1]].r.role = sess[p[2]].r.role
                                              /\ sess[p[1]].r.pw = sess[p[2]].r.pw})
          IN  [n \in DOMAIN ps |-> [op |-> "blind", s |-> ps[n][1], t |-> ps[n][2],
                                    diff |-> Out(EncT(Diff(ps[n][1], ps[n][2])))]]
Emit == (Record /\ Complete) => PrintT(ToJson(hist \o Blinds))

-----------------------------------------------------------------------------
(* The properties. *)
OkFin(i) == fin[i] # No /\ fin[i].r.status = "Ok"
Key(i)   == fin[i].r.key
S(i)     == sess[i].r

Matching(i, j) ==
    /\ S(j).role = Sp!PeerTag(S(i).role)
    /\ S(i).pw = S(j).pw /\ S(i).ids = S(j).ids

Agreement ==
    \A i, j \in Ids :
        (/\ i # j /\ fin[i] # No /\ fin[j] # No
         /\ Matching(i, j)
         /\ fin[i].r.m = Sp!Message(S(j)) /\ fin[j].r.m = Sp!Message(S(i)))
        => OkFin(i) /\ OkFin(j) /\ Key(i) = Key(j)

(* a common key means: same mode, password, identities and transcript *)
Transcript(i) == IF S(i).role = "B" THEN <<fin[i].r.m.body, S(i).body>>
                                    ELSE <<S(i).body, fin[i].r.m.body>>
Binding ==
    \A i, j \in Ids :
        (i # j /\ OkFin(i) /\ OkFin(j) /\ Key(i) = Key(j))
        => /\ S(i).pw = S(j).pw /\ S(i).ids = S(j).ids
           /\ (S(i).role = "S") = (S(j).role = "S")
           /\ \/ Transcript(i) = Transcript(j)
              \/ S(i).role = "S" /\ Transcript(i) = <<Transcript(j)[2], Transcript(j)[1]>>

(* finish succeeds for nothing but a well-formed message of the peer role *)
Acceptance ==
    \A i \in Ids : fin[i] # No =>
        (OkFin(i) <=> /\ fin[i].r.m.len = "ok" /\ fin[i].r.m.tag = Sp!PeerTag(S(i).role)
                      /\ DecodesT(fin[i].r.m.body)
                      /\ ~(S(i).role = "S" /\ fin[i].r.m.body = S(i).body))

(* every message is blinded by a scalar that occurs nowhere else *)
Blinded ==
    \A i \in Ids : sess[i] # No =>
        /\ LC(MAtom(Rnd(i, "x")), Leaf("B", <<>>)) \in DOMAIN S(i).body.a[1].e
        /\ \A j \in Ids : (j # i /\ sess[j] # No) => S(j).body # S(i).body

(* An active attacker who plays one role with message aB + wU, w the scalar  *)
(* of a guessed password, computes the honest side's key only if the guess   *)
(* is right: K = x(aB + (w - w0)U) equals a(X - w V) = a(xB + (w0 - w)V)     *)
(* only for w = w0.                                                          *)
OneGuess ==
    \A i \in Ids : sess[i] # No =>
        \A g \in {Pw0} \cup PwVars :
            LET a  == PAtom(Rnd("adv", "a"))
                ym == EncT(EAdd(EMul(a, BB), EMul(PwAtom(g), Sp!Unblind(S(i).role))))
                mine == Sp!SharedPoint(S(i), ym)
                adv  == EMul(a, EAdd(S(i).body.a[1],
                                     EMul(PNeg(PwAtom(g)), Sp!Blind(S(i).role))))
            IN  (mine = adv) <=> (g = S(i).pw)
=============================================================================
