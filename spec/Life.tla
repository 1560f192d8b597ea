-------------------------------- MODULE Life ---------------------------------
(***************************************************************************)
(* The life of one object that an application keeps for many sessions and  *)
(* users: a client or a server of AuCPace, or a process that starts SPAKE2 *)
(* sessions.  An operation draws the values its description names, each    *)
(* for itself: which value it is depends on nothing but the place of the   *)
(* operation in the object's history, so none ever comes back, however     *)
(* long the object lives and whichever names, failures and other           *)
(* operations lie in between.  If the random generator fails during the    *)
(* operation ("dry"), it has nothing to make a value from and shows none:  *)
(* it does not go on with a constant or with what was drawn before.        *)
(*                                                                         *)
(* TLC emits every history of at most MaxLen operations, at most one of    *)
(* them dry.  The only state is how many operations there were, so a       *)
(* history can be repeated without end ("Pumped"); the harness repeats     *)
(* each of them some hundred times.                                        *)
(***************************************************************************)
EXTENDS Terms, Json

CONSTANTS MaxLen, Kinds

VARIABLES who, hist, seen
vars == <<who, hist, seen>>

\* name of the operation, the user it is about, what it draws, whether the value is shown as such or through the group
Op(n, u, w, d) == [op |-> n, user |-> u, what |-> w, direct |-> d]
ClientOps == { Op("begin", "", "nonce", TRUE), Op("pre", "", "", FALSE), Op("blind", "n1", "r", FALSE), Op("pub", "n1", "y", FALSE),
               Op("regfail", "n1", "", FALSE) }
        \cup { Op(o, u, "salt", TRUE) : o \in {"reg", "breg"}, u \in {"n1", "n2"} }
        \cup { Op(o, u, "q", TRUE)    : o \in {"sreg", "bsreg"}, u \in {"n1", "n2"} }
\* n1 is registered, n2 is not
ServerOps == { Op("begin", "", "nonce", TRUE), Op("pre", "", "", FALSE), Op("keypair", "", "x", TRUE),
               Op("pub", "n1", "y", FALSE), Op("fail", "n1", "", FALSE), Op("new", "n2", "secret", FALSE) }
        \cup { Op(o, u, "x", FALSE) : o \in {"info", "sinfo"}, u \in {"n1", "n2"} }
\* a session of each role with either password; a session that is finished with a message of no use
SpakeOps  == { Op(o, u, "scalar", FALSE) : o \in {"a", "b", "s"}, u \in {"n1", "n2"} }
        \cup { Op("fail", "n1", "", FALSE) }

Ops(k) == CASE k = "client" -> ClientOps [] k = "server" -> ServerOps [] k = "spake" -> SpakeOps

Pos == <<"p1", "p2", "p3", "p4">>
Value(i, o, dry) == IF o.what = "" \/ dry THEN {} ELSE {Rnd(Pos[i], o.what)}

Init == who \in Kinds /\ hist = <<>> /\ seen = {}
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops(who), dry \in BOOLEAN :
            /\ dry => o.what # "" /\ \A i \in DOMAIN hist : ~hist[i].dry
            /\ hist' = Append(hist, [o |-> o, dry |-> dry])
            /\ seen' = seen \cup Value(Len(hist) + 1, o, dry)
        /\ UNCHANGED who
Spec == Init /\ [][Next]_vars

Draws(h) == Cardinality({i \in DOMAIN h : h[i].o.what # "" /\ ~h[i].dry})

\* as many values as draws: none came back, none came from nothing
Fresh == Cardinality(seen) = Draws(hist)
\* the value of an operation does not depend on the user or on what was done before
Pumped == \A i \in DOMAIN hist : Value(i, hist[i].o, hist[i].dry) \subseteq seen

Emit == hist # <<>> => PrintT(ToJson([who |-> who, ops |-> hist]))
==============================================================================
