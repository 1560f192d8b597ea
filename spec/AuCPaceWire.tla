---------------------------- MODULE AuCPaceWire -----------------------------
(***************************************************************************)
(* Messages of AuCPace on the wire: every kind of message, every class of  *)
(* each of its fields, and every way in which a serialised message can be  *)
(* no message.                                                             *)
(*                                                                         *)
(* A serialised message is the index of its kind followed by its fields.   *)
(* Reading one back gives an error unless the kind exists and every field  *)
(* is an encoding of its type, and gives exactly the fields otherwise.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

(* kinds in the order of the enumerations *)
Client == << <<"Nonce", <<"nonce">> >>,
             <<"Username", <<"user">> >>,
             <<"StrongUsername", <<"user", "point">> >>,
             <<"PublicKey", <<"point">> >>,
             <<"Authenticator", <<"auth">> >>,
             <<"Registration", <<"user", "salt", "params", "point">> >>,
             <<"StrongRegistration", <<"user", "scalar", "params", "point">> >> >>
Server == << <<"Nonce", <<"nonce">> >>,
             <<"AugmentationInfo", <<"group", "point", "salt", "params">> >>,
             <<"StrongAugmentationInfo", <<"group", "point", "point", "params">> >>,
             <<"PublicKey", <<"point">> >>,
             <<"Authenticator", <<"auth">> >> >>
Kinds(side) == IF side = "client" THEN Client ELSE Server

(* Values of a field.  c: what it is like, n: its length or size, k: a second number. *)
V(c, n, k) == [c |-> c, n |-> n, k |-> k]
Full(t) ==
    CASE t = "nonce"  -> {V("bytes", n, 0) : n \in {1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 1000}}
      [] t = "auth"   -> {V(c, 64, 0) : c \in {"bytes", "zeros", "ones"}}
      [] t = "user"   -> {V("bytes", n, 0) : n \in 0 .. 70 \cup {126, 127, 128, 129, 255, 256, 257, 1000, 16383, 16384, 16385, 65535, 65536, 100000}}
                         \cup {V(c, n, 0) : c \in {"zeros", "ones", "text", "utf8"}, n \in {1, 16, 128, 300}}
      [] t = "point"  -> {V(c, 0, 0) : c \in {"random", "base", "neutral", "negbase", "small"}}
      [] t = "scalar" -> {V(c, 0, 0) : c \in {"random", "zero", "one", "minusone", "small"}}
      [] t = "salt"   -> {V("b64", n, 0) : n \in 4 .. 64}
      \* n pairs, k: total length, at most 127
      [] t = "params" -> {V("none", 0, 0)}
                         \cup {V("pairs", n, k) : n \in {1, 2, 3, 4, 5, 8, 16, 31, 32}, k \in {0, 20, 64, 65, 100, 126, 127}}
      [] t = "group"  -> {V("name", n, 0) : n \in {0, 1, 12, 127, 128, 255, 256, 300}}
Few(t) ==
    CASE t = "nonce"  -> {V("bytes", 16, 0), V("bytes", 32, 0)}
      [] t = "auth"   -> {V("bytes", 64, 0)}
      [] t = "user"   -> {V("bytes", n, 0) : n \in {0, 5, 200}}
      [] t = "point"  -> {V("random", 0, 0), V("neutral", 0, 0)}
      [] t = "scalar" -> {V("random", 0, 0), V("zero", 0, 0)}
      [] t = "salt"   -> {V("b64", n, 0) : n \in {4, 22, 64}}
      [] t = "params" -> {V("none", 0, 0), V("pairs", 1, 0), V("pairs", 4, 100)}
      [] t = "group"  -> {V("name", 12, 0)}

(* The faults of an encoded field. *)
Faults(t) ==
    CASE t = "nonce"  -> {}
      [] t = "auth"   -> {}
      [] t = "user"   -> {"overrun"}
      [] t = "point"  -> {"negative", "large", "nosquare", "highbit"}
      [] t = "scalar" -> {"order", "large"}
      [] t = "salt"   -> {"short", "long", "badchar", "nonutf8", "empty", "overrun"}
      [] t = "params" -> {"noequals", "twoequals", "badname", "toolong", "doublecomma", "trailingcomma", "noname", "nonutf8", "longvalue", "overrun"}
      [] t = "group"  -> {"nonutf8", "overrun"}

RECURSIVE Tuples(_, _, _)
(* the tuples of field values, the field number f over its full range (0: none) *)
Tuples(ts, i, f) ==
    IF i > Len(ts) THEN {<<>>}
    ELSE {<<v>> \o r : v \in (IF i = f THEN Full(ts[i]) ELSE Few(ts[i])), r \in Tuples(ts, i + 1, f)}
Messages(side, k) ==
    LET ts == Kinds(side)[k][2] IN UNION {Tuples(ts, 1, f) : f \in 0 .. Len(ts)}

-----------------------------------------------------------------------------
(* The wire. *)
Field(v)       == [v |-> v, ok |-> TRUE]
Ser(k, fs)     == [index |-> k, fields |-> [i \in DOMAIN fs |-> Field(fs[i])], whole |-> TRUE]
De(side, w) ==
    IF ~w.whole \/ w.index \notin DOMAIN Kinds(side) THEN "error"
    ELSE IF \E i \in DOMAIN w.fields : ~w.fields[i].ok THEN "error"
    ELSE "same"
Break(w, i)    == [w EXCEPT !.fields[i].ok = FALSE]
Cut(w)         == [w EXCEPT !.whole = FALSE]
Unknown(w, k)  == [w EXCEPT !.index = k]

VARIABLE st
Init == st \in [side : {"client", "server"}, k : 1 .. 7, done : {FALSE}]
Emit(r) == PrintT(ToJson(r))
Row(side, k, fs, at, fault, status) ==
    Emit([side |-> side, kind |-> Kinds(side)[k][1], types |-> Kinds(side)[k][2], fields |-> fs, at |-> at, fault |-> fault, status |-> status])
Next ==
    /\ ~st.done /\ st' = [st EXCEPT !.done = TRUE]
    /\ st.k \in DOMAIN Kinds(st.side) =>
        LET side == st.side
            k    == st.k
            ts   == Kinds(side)[k][2] IN
        /\ \A fs \in Messages(side, k) :
             LET w == Ser(k, fs) IN
             /\ De(side, w) = "same"
             /\ De(side, Cut(w)) = "error"
             /\ Row(side, k, fs, 0, "none", De(side, w))
        /\ \A fs \in Tuples(ts, 1, 0) :
             LET w == Ser(k, fs) IN
             /\ Row(side, k, fs, 0, "kind", De(side, Unknown(w, Len(Kinds(side)) + 1)))
             /\ \A i \in DOMAIN ts : \A f \in Faults(ts[i]) : Row(side, k, fs, i, f, De(side, Break(w, i)))
Spec == Init /\ [][Next]_st
=============================================================================
