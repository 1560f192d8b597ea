---------------------------- MODULE AuCPaceTable ----------------------------
(***************************************************************************)
(* Which inputs are refused, and with what error: lengths of SSIDs, sizes  *)
(* of hashing buffers, results of the password hasher.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

MinSsid == 16
SsidLens == 0 .. 70 \cup {127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 65552}
SsidStatus(n) == IF n >= MinSsid THEN "Ok" ELSE "InsecureSsid"

Bufs == {1, 2, 3, 4, 8, 16, 17, 64, 100, 255, 256, 257, 1024, 65535, 65536, 65537}
(* lengths around what fits, from both sides *)
Splits(n) == {<<u, n - u>> : u \in {0, 1, 2, n - 2, n - 1, n, n \div 2} \cap (0 .. n)}
Lens(b) == UNION {Splits(n) : n \in {m \in {0, b - 3, b - 2, b - 1, b, b + 1, b + 2, 2 * b, b + 256} : m >= 0}}
(* and lengths that a field of two bytes does not hold, or of which it keeps something that fits *)
TwoBytes == 65536
Long(b) == UNION {Splits(n) \cup {<<TwoBytes, n - TwoBytes>>, <<n - TwoBytes, TwoBytes>>} :
                    n \in {TwoBytes + m : m \in {0, 1, b - 2, b - 1, b, b + 1, TwoBytes + b \div 2} \cap Nat}}
           \cup Splits(TwoBytes - 1) \cup Splits(TwoBytes - 2)
Fits(u, p, b) == u + p + 1 <= b

(* what the hasher does *)
Outcomes == {[k |-> "out", n |-> n] : n \in 10 .. 64} \cup {[k |-> "none", n |-> 0]}
            \cup {[k |-> "err", n |-> n] : n \in 0 .. 11}
            \cup {[k |-> "parerr", n |-> n] : n \in 0 .. 11}
HashStatus(o) ==
    CASE o.k = "out"    -> IF o.n \in {32, 64} THEN "Ok" ELSE "HashSizeInvalid"
      [] o.k = "none"   -> "HashEmpty"
      [] o.k = "err"    -> "PasswordHashing"
      [] o.k = "parerr" -> "PasswordHashing"

Entries == {"register", "register_strong", "register_alloc", "register_alloc_strong",
            "cpace", "cpace_strong", "cpace_alloc", "cpace_alloc_strong"}
Buffered(e) == e \in {"register", "register_strong", "cpace", "cpace_strong"}
Registers(e) == e \in {"register", "register_strong", "register_alloc", "register_alloc_strong"}

Ok32 == [k |-> "out", n |-> 32]
(* parameters are turned into their string on registration only *)
Status(e, u, p, b, o) ==
    IF Buffered(e) /\ ~Fits(u, p, b) THEN "UsernameOrPasswordTooLong"
    ELSE IF o.k = "parerr" /\ ~Registers(e) THEN "Ok"
    ELSE HashStatus(o)

VARIABLES done
Row(e, u, p, b, o) == PrintT(ToJson([t |-> "hash", e |-> e, u |-> u, p |-> p, b |-> b, o |-> o, status |-> Status(e, u, p, b, o)]))
Init == done \in [what : {"ssid"} \cup Entries, fin : {FALSE}]
Next ==
    /\ ~done.fin /\ done' = [done EXCEPT !.fin = TRUE]
    /\ IF done.what = "ssid"
       THEN \A n \in SsidLens : PrintT(ToJson([t |-> "ssid", n |-> n, status |-> SsidStatus(n)]))
       ELSE /\ \A b \in Bufs : \A l \in Lens(b) :
                 \A o \in {Ok32, [k |-> "out", n |-> 64], [k |-> "err", n |-> 3], [k |-> "none", n |-> 0]} :
                     Row(done.what, l[1], l[2], b, o)
            /\ \A b \in Bufs : \A l \in Long(b) \ Lens(b) : Row(done.what, l[1], l[2], b, Ok32)
            /\ \A o \in Outcomes : Row(done.what, 5, 9, 100, o)
Spec == Init /\ [][Next]_done

(* sanity: the buffered and the heap entry points agree whenever it fits *)
Agree == \A b \in Bufs : \A l \in Lens(b) : \A o \in Outcomes :
    Fits(l[1], l[2], b) =>
        /\ Status("register", l[1], l[2], b, o) = Status("register_alloc", l[1], l[2], b, o)
        /\ Status("cpace", l[1], l[2], b, o) = Status("cpace_alloc", l[1], l[2], b, o)
ASSUME Agree
=============================================================================
