------------------------------- MODULE Builds -------------------------------
(***************************************************************************)
(* The crates as they can be built: with any subset of their features,     *)
(* with or without debug assertions and overflow checks.                   *)
(*                                                                         *)
(* A build offers some of the steps of a session: those whose needs are    *)
(* among its features.  What an offered step gives is a function of the    *)
(* step and of what has been received: Value does not mention the build.   *)
(* Two parties, each with a build of its own, run a session in lockstep    *)
(* with two parties that have everything.                                  *)
(*                                                                         *)
(* The module also chooses the builds to make: Cover is six builds in      *)
(* which every two of the factors take all four values.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Deep   \* the builds to emit: FALSE: Cover; TRUE: also all subsets of the features that matter, in both profiles

Flags == {"alloc", "partial", "strong", "getrandom", "std", "zeroize", "serde", "hashes"}
Matter == {"alloc", "partial", "strong", "getrandom"}
Factors == Flags \cup {"checked"}   \* debug assertions and overflow checks

(* a step: what it does, and by which of the functions that do it *)
K(op, how) == [op |-> op, how |-> how]
Kinds ==
    {K("sp.start", h) : h \in {{}, {"os"}}} \cup
    {K(o, {}) : o \in {"sp.finish", "sr.reg", "sr.cstart", "sr.sstart", "sr.reply", "sr.verify",
                       "au.cstart", "au.sstart", "au.pub", "au.recv", "au.auth"}} \cup
    {K("au.reg", h) : h \in SUBSET {"strong", "alloc"}} \cup
    {K("au.key", {})} \cup
    {K("au.caug", h) : h \in SUBSET {"strong"}} \cup
    {K("au.sinfo", h) : h \in SUBSET {"strong", "partial"}} \cup
    {K("au.ccpace", h) : h \in SUBSET {"strong", "alloc"}}

Needs(k) ==
    (IF "os" \in k.how THEN {"getrandom"} ELSE {}) \cup (k.how \ {"os"})
    \cup (IF k.op = "au.key" THEN {"partial"} ELSE {})
Offered(b, k) == Needs(k) \subseteq b

(***************************************************************************)
(* Sessions, as sequences of steps of the two parties.                     *)
(***************************************************************************)
S(p, op, how) == [p |-> p, k |-> K(op, how)]
If(c, x) == IF c THEN {x} ELSE {}
Sp(c, s) ==
    <<S("c", "sp.start", If(c, "os")), S("s", "sp.start", If(s, "os")),
      S("c", "sp.finish", {}), S("s", "sp.finish", {})>>
Sr == <<S("c", "sr.reg", {}), S("c", "sr.cstart", {}), S("s", "sr.sstart", {}), S("c", "sr.reply", {}),
        S("s", "sr.reply", {}), S("s", "sr.verify", {}), S("c", "sr.verify", {})>>
Au(strong, partial, areg, acp, pre, cexp, sexp) ==
    LET st == If(strong, "strong") IN
    <<S("c", "au.reg", st \cup If(areg, "alloc"))>>
    \o (IF partial THEN <<S("s", "au.key", {})>> ELSE <<>>)
    \o <<S("s", "au.sstart", {}), S("c", "au.cstart", {}),
         S("c", "au.caug", st), S("s", "au.sinfo", st \cup If(partial, "partial")),
         S("c", "au.ccpace", st \cup If(acp, "alloc")),
         S("s", "au.pub", {}), S("c", "au.pub", {}), S("c", "au.recv", {}), S("s", "au.recv", {})>>
    \o (IF cexp /\ sexp THEN <<S("s", "au.auth", {}), S("c", "au.auth", {})>> ELSE <<>>)
Programs ==
    {Sp(c, s) : c, s \in BOOLEAN} \cup {Sr} \cup
    {Au(st, pa, ar, ac, FALSE, e, e) : st, pa, ar, ac, e \in BOOLEAN}

VARIABLES prog, b,    \* the session, the features of the two parties
          val,        \* what the steps gave
          ref         \* what they gave the parties that have everything
vars == <<prog, b, val, ref>>

(* what a step gives: a function of the steps it depends on, and only of them *)
Silent == [k |-> "silent"]
Unavailable == [k |-> "unavailable"]
Fine(v) == v.k = "value"
(* here every step depends on all before it *)
Value(step, before) == [k |-> "value", step |-> step.k, of |-> before]
Gives(build, step, before) ==
    IF \E i \in DOMAIN before : ~Fine(before[i]) THEN Silent
    ELSE IF ~Offered(build, step.k) THEN Unavailable
    ELSE Value(step, Len(before))

Init ==
    /\ prog \in Programs
    /\ b \in [{"c", "s"} -> SUBSET Matter]
    /\ val = <<>> /\ ref = <<>>
Next ==
    /\ Len(val) < Len(prog)
    /\ LET step == prog[Len(val) + 1] IN
        /\ val' = Append(val, Gives(b[step.p], step, val))
        /\ ref' = Append(ref, Gives(Flags, step, ref))
    /\ UNCHANGED <<prog, b>>

(* the parties that have everything finish every session *)
Everything == \A i \in DOMAIN ref : Fine(ref[i])
(* a build gives what the others give, or nothing *)
SameOutcome == \A i \in DOMAIN val : Fine(val[i]) => val[i] = ref[i]
(* a session ends exactly if both builds offer their steps *)
Possible == \A i \in DOMAIN prog : Offered(b[prog[i].p], prog[i].k)
Complete == Len(val) = Len(prog) => (Possible <=> \A i \in DOMAIN val : Fine(val[i]))
(* at most one step is refused, and nothing happens after it *)
Stops == \A i \in DOMAIN val : val[i] = Unavailable => \A j \in DOMAIN val : j > i => val[j] = Silent

-----------------------------------------------------------------------------
(* Facts about the table, and the builds to make.                          *)
Monotone == \A c, d \in SUBSET Matter, k \in Kinds : c \subseteq d /\ Offered(c, k) => Offered(d, k)
Indifferent == \A k \in Kinds : Needs(k) \subseteq Matter
(* whatever is missing, there is a way to have every protocol: a session of each without features *)
Bare == \A f \in {"sp", "sr", "au"} : \E p \in Programs :
            /\ \A i \in DOMAIN p : Offered({}, p[i].k)
            /\ CASE f = "sp" -> p[1].k.op = "sp.start" [] f = "sr" -> p[1].k.op = "sr.reg" [] OTHER -> p[1].k.op = "au.reg"

(* every factor is in three of five builds, no two in the same three *)
Triple == [alloc |-> {1, 2, 3}, partial |-> {1, 2, 4}, strong |-> {2, 3, 5}, getrandom |-> {1, 3, 4}, std |-> {1, 4, 5},
           zeroize |-> {2, 3, 4}, serde |-> {1, 2, 5}, hashes |-> {1, 3, 5}, checked |-> {2, 4, 5}]
Cover == {{f \in Factors : i \in Triple[f]} : i \in 0 .. 5}
Pairwise == \A f, g \in Factors : f # g =>
                \A x, y \in BOOLEAN : \E c \in Cover : (f \in c <=> x) /\ (g \in c <=> y)
(* and one with everything, as it is released, and one that other machines are compared with: *)
(* everything but the generator of the operating system                                       *)
ForMachines == {"alloc", "partial", "strong"}
ToMake == Cover \cup {Flags, ForMachines} \cup
          (IF Deep THEN {m \cup c : m \in SUBSET Matter, c \in {{}, {"checked"}}}
                        \cup {Factors \ {f} : f \in Factors}
           ELSE {})
ASSUME Monotone /\ Indifferent /\ Bare /\ Pairwise
ASSUME \A c \in ToMake : PrintT(ToJson([flags |-> c \cap Flags, checked |-> "checked" \in c, machines |-> c = ForMachines,
                                        kinds |-> {k \in Kinds : Offered(c, k)}]))
=============================================================================
