---------------------------- MODULE Spake2Table -----------------------------
(***************************************************************************)
(* The outcome of finish as a table over everything it may depend on, for  *)
(* arbitrary byte strings: the harness classifies a string (length, first  *)
(* byte, equal to the own message, decodable) and looks the outcome up.    *)
(***************************************************************************)
EXTENDS Spake2Sym, Json

Sess(r) == Sp!Session(r, <<"p">>, IF r = "S" THEN <<<<"i">>>> ELSE <<<<"i">>, <<"j">>>>,
                      PAtom(Rnd("s", "x")))
Msg(r, len, tag, own, dec) ==
    [len |-> len, tag |-> tag,
     body |-> IF own THEN Sess(r).body
              ELSE IF dec THEN EncT(EBase(Leaf("other", <<>>))) ELSE Leaf("junk", <<>>)]

VARIABLE row
Init == \E r \in Sp!Roles, len \in {"ok", "bad"}, tag \in {"A", "B", "S", "other"},
          own \in BOOLEAN, dec \in BOOLEAN :
            /\ own => dec
            /\ row = [role |-> r, len |-> len, tag |-> tag, own |-> own, dec |-> dec,
                      status |-> Sp!Status(Sess(r), Msg(r, len, tag, own, dec))]
Next == UNCHANGED row
Emit == PrintT(ToJson(row))
(* every string has exactly one of the four outcomes *)
Total == row.status \in {"Ok", "WrongLength", "BadSide", "CorruptMessage"}
=============================================================================
