------------------------------ MODULE Outcomes ------------------------------
(***************************************************************************)
(* What each operation of the three protocols may answer, whatever it is   *)
(* given: sessions of two parties from registration to the last proof, in  *)
(* which inputs (strings, exponents) of every class are chosen and some of *)
(* what is delivered is replaced by something else of every class.  An     *)
(* operation refuses only if an argument of its own justifies it, and then *)
(* with an error that one of them justifies; otherwise it succeeds.        *)
(*                                                                         *)
(* Arguments are chosen one by one.  Budget bounds how unusual a session   *)
(* is: a class of the small sets costs 1, one of the large sets costs 2.   *)
(* Sessions of a variant in Thorough get the whole budget, the others at   *)
(* most one choice of either kind (see Room).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Wide      \* which variants get pairs of unusual arguments: "some" or "all"

C(k, n) == [c |-> k, n |-> n]
Usual == C("usual", 0)

Fills == {"zero", "ff", "text", "any"}
Lens == {0, 1, 2, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 48, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129,
         255, 256, 257, 1000, 65535, 65536, 65537, 100000, 150000}
FewLens == {0, 1, 32, 64, 255, 256, 65536, 100000}
ExpLens == {0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 256, 257, 400}
Strs(L, F) == {C(f, n) : f \in F, n \in L}

(* the classes of each kind of argument: those that may meet another one, and more *)
Few(k) ==
    CASE k = "str"   -> Strs(FewLens, {"zero", "any"}) \cup {C("same", 0)}      \* as the input before
      [] k = "exp"   -> Strs({0, 1, 32, 128, 256}, {"zero", "ff", "any"})
      [] k = "num"   -> {C(c, 0) : c \in {"empty", "zeros", "one", "N", "N-1", "g", "long", "max"}}
      [] k = "ssid"  -> Strs({0, 1, 15, 16, 17, 256, 65536}, {"zero", "any"})
      [] k = "nonce" -> {C(c, 0) : c \in {"zero", "ff", "own"}}
      [] k = "par"   -> {C(c, 0) : c \in {"none", "one", "longest", "fails", "no output", "48 bytes"}}
      [] k = "salt"  -> {C(c, 0) : c \in {"short", "longest"}}
      [] k = "psalt" -> {C(c, 0) : c \in {"short", "longest", "other"}}
      [] k = "point" -> {C(c, 0) : c \in {"neutral", "base", "minus", "other", "mirrored"}}
      [] k = "user"  -> {C("unknown", n) : n \in {0, 1, 256, 65536}}
      [] k = "exponent" -> {C(c, 0) : c \in {"zero", "one"}}
      [] k = "msg"   -> {C("length", n) : n \in {0, 1, 32, 34, 65536}}
                        \cup {C("tag", n) : n \in {0, 65, 66, 83, 255}}
                        \cup {C(c, 0) : c \in {"mirrored", "ownbody", "junk", "undecodable", "identity", "torsion", "other",
                                                "cancels", "nearly cancels", "base", "M", "N", "S", "noncanonical"}}
      [] k = "pub"   -> {C(c, 0) : c \in {"empty", "zero", "zeros", "N", "padded N", "multiple", "one", "N-1", "N+1",
                                          "long", "padded", "plus N", "mirrored", "g", "power", "half", "cancels"}}
      [] k = "proof" -> {C(c, 0) : c \in {"flipped", "cut", "longer", "empty", "zero", "own"}}
      [] k = "mac"   -> {C(c, 0) : c \in {"flipped", "zero", "ff", "own"}}
More(k) ==
    CASE k = "str"   -> Strs(Lens, Fills)
      [] k = "exp"   -> Strs(ExpLens, Fills)
      [] k = "ssid"  -> Strs(Lens \cup 3 .. 40, {"zero", "any"})
      [] k = "msg"   -> {C("length", n) : n \in (0 .. 100 \cup Lens) \ {33}} \cup {C("tag", n) : n \in 0 .. 255}
      [] OTHER       -> {}

-----------------------------------------------------------------------------
(* the operations of a session, in order, with what they are given *)
A(o, n, k, d) == [op |-> o, name |-> n, kind |-> k, del |-> d]
In(o, n, k) == A(o, n, k, FALSE)     \* an input: of every class, and the parties agree on it
Del(o, n, k) == A(o, n, k, TRUE)     \* delivered or looked up: usually as it was sent or stored
Do(o) == A(o, "", "", FALSE)         \* nothing new

SpScript(v) ==
    << In("sp.start1", "pw", "str"), In("sp.start1", "ida", "str") >>
    \o (IF v.sym THEN <<>> ELSE << In("sp.start1", "idb", "str") >>)
    \o << Do("sp.start2"), Del("sp.fin1", "msg", "msg"), Del("sp.fin2", "msg", "msg") >>

SrScript(v) ==
    << In("sr.reg", "u", "str"), In("sr.reg", "p", "str"), In("sr.reg", "salt", "str"),
       In("sr.cstart", "a", "exp"), In("sr.sstart", "b", "exp"), Del("sr.sstart", "v", "num"),
       Del("sr.creply", "B", "pub"), Del("sr.sreply", "A", "pub"),
       Del("sr.sverify", "proof", "proof"), Del("sr.cverify", "proof", "proof") >>

AuScript(v) ==
    << In("au.reg", "u", "str"), In("au.reg", "p", "str"), In("au.reg", "par", "par") >>
    \o (IF v.partial THEN << Do("au.key") >> ELSE <<>>)
    \o (IF v.pre THEN << In("au.cstart", "ssid", "ssid"), Do("au.sstart"), Do("au.caug") >>
                 ELSE << Do("au.cstart"), Do("au.sstart"), Del("au.caug", "nonce", "nonce") >>)
    \o (IF v.pre THEN <<>> ELSE << Del("au.sinfo", "nonce", "nonce") >>)
    \o << Del("au.sinfo", "user", "user") >>
    \o (IF v.strong THEN << Del("au.sinfo", "blinded", "point"), Del("au.sinfo", "q", "exponent") >>
                    ELSE << Del("au.sinfo", "stored salt", "psalt") >>)
    \o << Del("au.ccpace", "X", "point"), Del("au.ccpace", "salt", IF v.strong THEN "point" ELSE "psalt"),
          Del("au.ccpace", "par", "par"),
          In("au.cpub", "ci", "str"), Do("au.spub"), Del("au.crecv", "Y", "point"), Del("au.srecv", "Y", "point") >>
    \o (IF v.exp THEN << Del("au.sauth", "mac", "mac"), Del("au.cauth", "mac", "mac") >> ELSE <<>>)

Script(v) == CASE v.proto = "sp" -> SpScript(v) [] v.proto = "sr" -> SrScript(v) [] v.proto = "au" -> AuScript(v)

Variants ==
    {[proto |-> "sp", sym |-> b] : b \in BOOLEAN} \cup {[proto |-> "sr"]}
    \cup [proto : {"au"}, strong : BOOLEAN, partial : BOOLEAN, pre : BOOLEAN, exp : BOOLEAN,
          heapreg : BOOLEAN, heap : BOOLEAN]
(* four that differ in everything *)
Some(v) ==
    \/ v.proto # "au"
    \/ /\ v.heapreg /\ v.heap = v.strong
       /\ v.exp /\ v.pre = (v.strong # v.partial)
Room(v) == IF Some(v) \/ Wide = "all" THEN 2 ELSE 1

-----------------------------------------------------------------------------
(* what an argument of an operation justifies, given all chosen so far; {} if nothing *)
PeerTag(v, o) == IF v.sym THEN 83 ELSE IF o = "sp.fin1" THEN 66 ELSE 65
Own(v, c) == c.c = "mirrored" \/ (v.sym /\ c.c = "ownbody")

SpWhy(v, o, c) ==
    CASE c.c = "length"      -> {"WrongLength"}
      [] c.c = "tag"         -> IF c.n = PeerTag(v, o) THEN {} ELSE {"BadSide"}
      [] Own(v, c)           -> {"BadSide"}
      [] c.c = "undecodable" -> {"CorruptMessage"}
      [] c.c \in {"junk", "noncanonical"} -> {"Ok", "CorruptMessage"}
      [] OTHER               -> {}

Illegal(c) == c.c \in {"empty", "zero", "zeros", "N", "padded N", "multiple"}
SrWhy(v, o, a, c) ==
    CASE a = "B" /\ Illegal(c) -> {"IllegalParameter b_pub"}
      [] a = "A" /\ Illegal(c) -> {"IllegalParameter a_pub"}
      [] o = "sr.sverify" /\ c # Usual -> {"BadRecordMac client"}
      [] o = "sr.cverify" /\ c # Usual -> {"BadRecordMac server"}
      [] OTHER -> {}

(* the longest buffer of the harness; the usual strings are short *)
Long(i) == i["u"].n + i["p"].n >= 140000
(* the hasher does what its parameters say *)
Hasher(c) == CASE c.c = "fails"     -> {"PasswordHashing(Crypto)"}
               [] c.c = "no output" -> {"HashEmpty"}
               [] c.c = "48 bytes"  -> {"HashSizeInvalid"}
               [] OTHER             -> {}
TooLong(heap, i) == IF ~heap /\ Long(i) THEN {"UsernameOrPasswordTooLong"} ELSE {}
AuWhy(v, o, a, c, i) ==
    CASE o = "au.reg" /\ a = "par"    -> TooLong(v.heapreg, i) \cup Hasher(c)
      [] o = "au.ccpace" /\ a = "par" -> TooLong(v.heap, i) \cup Hasher(c)
      [] o = "au.cstart" /\ a = "ssid" -> IF c # Usual /\ c.n < 16 THEN {"InsecureSsid"} ELSE {}
      [] c.c = "neutral" -> {"IllegalPoint"}
      [] a = "q" /\ c.c = "zero" -> IF i["user"] = Usual THEN {"IllegalPoint"} ELSE {}   \* the decoy has its own
      [] a = "mac" /\ c # Usual -> {"MutualAuthFail"}
      [] OTHER -> {}

Why(v, o, a, c, i) ==
    CASE v.proto = "sp" -> SpWhy(v, o, c)
      [] v.proto = "sr" -> SrWhy(v, o, a, c)
      [] v.proto = "au" -> AuWhy(v, o, a, c, i)

(* proofs of parties that need not agree any more may be refused *)
Checks(o) == CASE o = "sr.sverify" -> {"BadRecordMac client"}
               [] o = "sr.cverify" -> {"BadRecordMac server"}
               [] o \in {"au.sauth", "au.cauth"} -> {"MutualAuthFail"}
               [] OTHER -> {}
Allowed(o, why, altered) ==
    IF why # {} THEN why ELSE {"Ok"} \cup (IF altered THEN Checks(o) ELSE {})

-----------------------------------------------------------------------------
VARIABLES v, at, left, inp, why, altered, log, done
vars == <<v, at, left, inp, why, altered, log, done>>

Init ==
    /\ v \in Variants /\ at = 1 /\ left = Room(v)
    /\ inp = [x \in {"u", "p", "user"} |-> Usual] /\ why = {} /\ altered = FALSE /\ log = <<>> /\ done = FALSE

Args == Script(v)
Cost(k, c) == IF c = Usual \/ k = "" THEN 0 ELSE IF Room(v) = 1 \/ c \notin Few(k) THEN Room(v) ELSE 1
Classes(k) == {Usual} \cup (IF k = "" \/ left = 0 THEN {} ELSE Few(k) \cup (IF left = Room(v) THEN More(k) ELSE {}))

Next ==
    /\ ~done
    /\ LET a == Args[at]
           last == at = Len(Args) \/ Args[at + 1].op # a.op
       IN \E c \in Classes(a.kind) :
            LET i == IF a.name \in DOMAIN inp THEN [inp EXCEPT ![a.name] = IF a.name = "p" /\ c.c = "same" THEN inp["u"] ELSE c] ELSE inp
                w == why \cup Why(v, a.op, a.name, c, i)
                al == altered \/ (a.del /\ c # Usual)
                ok == Allowed(a.op, w, altered)
            IN /\ left' = left - Cost(a.kind, c)
               /\ inp' = i
               /\ altered' = al
               /\ why' = IF last THEN {} ELSE w
               /\ log' = Append(log, [op |-> a.op, name |-> a.name, cls |-> c, last |-> last,
                                      allowed |-> IF last THEN ok ELSE {}])
               /\ done' = ((last /\ "Ok" \notin ok) \/ at = Len(Args))
               /\ at' = at + 1
               /\ v' = v
Spec == Init /\ [][Next]_vars

Emit == done => PrintT(ToJson([v |-> v, log |-> SelectSeq(log, LAMBDA x : x.cls # Usual \/ x.last)]))

(* what the operations may answer at all *)
HasherErrors == {"PasswordHashing(Crypto)", "HashEmpty", "HashSizeInvalid"}
Documented(o) == {"Ok"} \cup
    CASE o \in {"sp.fin1", "sp.fin2"} -> {"WrongLength", "BadSide", "CorruptMessage"}
      [] o = "sr.creply" -> {"IllegalParameter b_pub"}
      [] o = "sr.sreply" -> {"IllegalParameter a_pub"}
      [] o = "au.reg" -> {"UsernameOrPasswordTooLong"} \cup HasherErrors
      [] o = "au.cstart" -> {"InsecureSsid"}
      [] o = "au.sinfo" -> {"IllegalPoint"}
      [] o = "au.ccpace" -> {"IllegalPoint", "UsernameOrPasswordTooLong"} \cup HasherErrors
      [] o \in {"au.crecv", "au.srecv"} -> {"IllegalPoint"}
      [] OTHER -> Checks(o)
Answers == done => \A j \in 1 .. Len(log) : log[j].last => log[j].allowed # {} /\ log[j].allowed \subseteq Documented(log[j].op)
(* parties to whom everything is delivered as sent are refused only for the inputs they chose *)
Undisturbed == done /\ ~altered => \A j \in 1 .. Len(log) :
    log[j].last /\ log[j].allowed # {"Ok"} => log[j].allowed \subseteq {"InsecureSsid", "UsernameOrPasswordTooLong"} \cup HasherErrors
(* nobody is refused before the first unusual argument *)
Justified == done => \A j \in 1 .. Len(log) :
    log[j].last /\ (\A k \in 1 .. j : log[k].cls = Usual) => log[j].allowed = {"Ok"}
(* usual sessions get to the end *)
Ends == done /\ (\A j \in 1 .. Len(log) : log[j].cls = Usual) => at = Len(Args) + 1
=============================================================================
