---------------------------- MODULE SystemTrace -----------------------------
(***************************************************************************)
(* Checks recorded traces of the implementation against NonInterference of *)
(* System: a process is the interleaving of its sessions, each of which    *)
(* behaves as it does alone.  A trace lists the steps of all sessions in   *)
(* the order of the process,                                               *)
(*     s : the session, i : its input, o : the outcome                     *)
(* (inputs and outcomes as numbers, equal for equal ones; an input is all  *)
(* that the step is given: arguments, delivered message, records looked up *)
(* and random bytes), and for each session the steps it took in a process  *)
(* of its own.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t,    \* which trace
          pos,  \* steps taken
          ses   \* session -> its steps so far

vars == <<t, pos, ses>>

Init == /\ t \in DOMAIN Traces /\ pos = 0
        /\ ses = [n \in DOMAIN Traces[t].alone |-> <<>>]

(* what a session alone answers, given what it was given: Alone of System *)
Alone(n) == Traces[t].alone[n]
Agrees(n, h) == Len(h) <= Len(Alone(n)) /\ \A k \in DOMAIN h : h[k].i = Alone(n)[k].i => h[k].o = Alone(n)[k].o
NonInterference(h) == \A n \in DOMAIN h : Agrees(n, h[n])

Next == /\ pos < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[pos + 1]
               h == [ses EXCEPT ![e.s] = Append(@, [i |-> e.i, o |-> e.o])] IN
           /\ ses' = h
           /\ IF NonInterference(h) THEN TRUE
              ELSE PrintT(<<"TRACE-REJECTED", t, pos + 1, e>>) /\ Assert(FALSE, "TRACE-REJECTED")
        /\ pos' = pos + 1
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

(* the sessions took the steps they take alone, no fewer and no more *)
Complete == pos = Len(Traces[t].ev) => \A n \in DOMAIN ses : Len(ses[n]) = Len(Alone(n))
=============================================================================
