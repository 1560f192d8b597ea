----------------------------- MODULE Spake2Toy ------------------------------
(***************************************************************************)
(* Spake2 over a concrete group, the integers modulo the prime Q: every    *)
(* choice of ephemeral scalars, passwords and delivered elements, that is, *)
(* all random choices and all points rather than generic ones.  The        *)
(* implementation is generic in the group, so the harness runs exactly     *)
(* these exchanges through Spake2<ToyGroup>, with element encodings chosen *)
(* such that two different elements agree in all but any one byte.         *)
(***************************************************************************)
EXTENDS Terms, Json

CONSTANTS Q, Record

Z == 0 .. Q - 1

EncZ(n)     == Leaf("toy", <<ToString(n)>>)
DecodesZ(b) == b.k = "toy"
DecTable    == [t \in {ToString(n) : n \in Z} |-> CHOOSE n \in Z : t = ToString(n)]
DecZ(b)     == DecTable[b.v[1]]
AddZ(a, b)  == (a + b) % Q
MulZ(s, a)  == (s * a) % Q
NegZ(s)     == (Q - s) % Q
BaseZ(s)    == s % Q
(* a password <<"w", n, i>> has scalar n; i tells passwords of equal scalar apart *)
PwName(n, i) == <<"w" \o ToString(n) \o "_" \o ToString(i)>>
PwTable     == [s \in {PwName(n, i) : n \in Z, i \in 0 .. 1} |->
                   CHOOSE n \in Z : \E i \in 0 .. 1 : PwName(n, i) = s]
PwZ(s)      == PwTable[s]

Sp == INSTANCE Spake2 WITH
        GAdd <- AddZ, GMul <- MulZ, GBase <- BaseZ, SNeg <- NegZ, PwScalar <- PwZ,
        GM <- 2 % Q, GN <- 3 % Q, GS <- 4 % Q, Enc <- EncZ, Decodes <- DecodesZ, Dec <- DecZ

VARIABLES role, pw, x, deliver, done

vars == <<role, pw, x, deliver, done>>

IdsOf(r) == IF r = "S" THEN <<<<"i">>>> ELSE <<<<"i">>, <<"j">>>>

S(n) == Sp!Session(role[n], pw[n], IdsOf(role[n]), x[n])

Init ==
    /\ role \in {<<"A", "B">>, <<"B", "A">>, <<"S", "S">>}
    /\ \E n \in Z, m \in Z, i \in 0 .. 1 :
          /\ pw = <<PwName(n, 0), PwName(m, i)>>
          /\ i = 1 => n = m
    /\ x \in Z \X Z
    /\ deliver = "peer" /\ done = FALSE

(* the second session always gets the first one's message; the first one gets *)
(* the second one's or any other element                                      *)
Next == ~done /\ done' = TRUE /\ deliver' \in {"peer"} \cup {ToString(n) : n \in Z}
        /\ UNCHANGED <<role, pw, x>>

Msg1 == IF deliver = "peer" THEN Sp!Message(S(2))
        ELSE [len |-> "ok", tag |-> Sp!PeerTag(role[1]), body |-> Leaf("toy", <<deliver>>)]
F1 == Sp!Finish(S(1), Msg1)
F2 == Sp!Finish(S(2), Sp!Message(S(1)))

Start(n) == [op |-> "start", s |-> "s" \o ToString(n), role |-> role[n], pw |-> pw[n],
             ids |-> IdsOf(role[n]), x |-> x[n], out |-> Out(Sp!MsgTerm(Sp!Message(S(n)))),
             debug |-> Out(Sp!DebugTerm(S(n)))]
Fin(n, src, how, f) == [op |-> "finish", s |-> "s" \o ToString(n), src |-> "s" \o ToString(src),
                        how |-> how, status |-> f.status, key |-> Out(f.key)]
Emit == (Record /\ done) => PrintT(ToJson(
    <<Start(1), Start(2), Fin(1, 2, IF deliver = "peer" THEN <<"none", "">> ELSE <<"elt", deliver>>, F1),
      Fin(2, 1, <<"none", "">>, F2)>>))

-----------------------------------------------------------------------------
Agreement ==
    (done /\ deliver = "peer" /\ pw[1] = pw[2] /\ ~(role[1] = "S" /\ S(1).body = S(2).body))
    => F1.status = "Ok" /\ F2.status = "Ok" /\ F1.key = F2.key

Binding ==
    (done /\ F1.status = "Ok" /\ F2.status = "Ok" /\ F1.key = F2.key)
    => pw[1] = pw[2] /\ Msg1.body = S(2).body

(* Perfect blinding: whatever the password, a uniform scalar makes a uniform message. *)
Perfect == \A r \in Sp!Roles, n \in Z :
    {Sp!Session(r, PwName(n, 0), IdsOf(r), y).body : y \in Z} = {EncZ(n2) : n2 \in Z}

ASSUME Perfect

Spec == Init /\ [][Next]_vars
=============================================================================
