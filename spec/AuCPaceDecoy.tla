---------------------------- MODULE AuCPaceDecoy ----------------------------
(***************************************************************************)
(* What two servers answer to repeated queries for names they may not      *)
(* know.  A query is a complete augmentation step in one of four variants; *)
(* every query is followed by the server's public key, which depends on    *)
(* the password-related string.                                            *)
(***************************************************************************)
EXTENDS AuCPace, Strings, Json

CONSTANTS MaxLen

VARIABLES other, len, known, hist
vars == <<other, len, known, hist>>

Servers == {"S", "T"}
Modes == [strong : BOOLEAN, partial : BOOLEAN]
Name  == <<"n1", "n2">>
Secret(s) == Rnd(s, "secret")
QId(i) == <<"q1", "q2", "q3", "q4", "q5">>[i]
ZB(n) == EBase(Node("zb", <<Str(n)>>))

Init == /\ other \in Edits(Name) \cup {<<"n2", "n1">>, <<"n1">>}
        /\ len \in {2, MaxLen}
        /\ len > 2 => other = <<"n1", "n2~l">>
        /\ known = {}
        /\ hist = <<>>

Answer(i, s, n, m) ==
    LET k == n \in known
        x == IF m.partial THEN (IF k THEN EMul(S(Rnd(n[1], "x")), B) ELSE DecoyPk(Secret(s), n))
                          ELSE EMul(S(Rnd(QId(i), "x")), B)
        info == IF m.strong
                THEN EMul(IF k THEN S(Rnd(n[1], "q")) ELSE DecoyExp(Secret(s), n), ZB(n))
                ELSE IF k THEN Rnd(n[1], "salt") ELSE DecoySalt(Secret(s), n)
    IN  <<x, info>>

Query ==
    \E s \in Servers, n \in {Name, other}, m \in Modes :
        /\ hist' = Append(hist, [op |-> "query", s |-> s, user |-> n, strong |-> m.strong, partial |-> m.partial,
                                 known |-> n \in known,
                                 out |-> Answer(Len(hist) + 1, s, n, m)])
        /\ UNCHANGED known

(* the user registers (plain, strong and with a long-term key) *)
Register ==
    \E n \in {Name} :
        /\ n \notin known /\ known' = known \cup {n}
        /\ hist' = Append(hist, [op |-> "register", s |-> "S", user |-> n, strong |-> FALSE, partial |-> FALSE, known |-> FALSE, out |-> <<>>])

(* what else may happen to a server in between; it does not show in the answers *)
Interludes == {"short ssid", "no ssid", "begin", "begin pre", "keypair", "fail", "illegal point", "illegal key", "implicit", "many"}
Interlude ==
    /\ Len(hist) = 1 /\ len > 2
    /\ \E w \in Interludes :
        hist' = Append(hist, [op |-> w, s |-> "S", user |-> Name, strong |-> FALSE, partial |-> FALSE, known |-> FALSE, out |-> <<>>])
    /\ UNCHANGED known

Next == /\ Len(hist) < len
        /\ Query \/ Register \/ Interlude
        /\ UNCHANGED <<other, len>>

Spec == Init /\ [][Next]_vars

Emit == Len(hist) = len =>
    PrintT(ToJson([i \in DOMAIN hist |-> [hist[i] EXCEPT !.out = [j \in DOMAIN @ |-> Out(@[j])]]]))

(* asked again about an unknown name, a server answers the same; others answer differently *)
Consistent ==
    \A i, j \in DOMAIN hist :
        (hist[i].op = "query" /\ hist[j].op = "query" /\ ~hist[i].known /\ ~hist[j].known) =>
            LET same == hist[i].s = hist[j].s /\ hist[i].user = hist[j].user IN
            /\ (hist[i].strong = hist[j].strong) => ((hist[i].out[2] = hist[j].out[2]) <=> same)
            /\ (hist[i].partial /\ hist[j].partial) => ((hist[i].out[1] = hist[j].out[1]) <=> same)
=============================================================================
