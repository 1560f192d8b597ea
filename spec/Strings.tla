------------------------------ MODULE Strings -------------------------------
(***************************************************************************)
(* Variations of strings of chunks.  A chunk "c~m" is chunk "c" changed in *)
(* one small way m; the harness gives it bytes accordingly:                *)
(*   ~f ~l ~m  a bit of the first / last / some middle byte flipped        *)
(*   ~h        the high bit of some byte flipped                           *)
(*   ~case     the case of a letter changed                                *)
(*   ~swap     two different bytes exchanged                               *)
(*   ~tr ~td   the last / first byte dropped                               *)
(*   ~inc      the last byte incremented                                   *)
(* and "nul", "sp", "nl", "colon" are those single bytes.                  *)
(***************************************************************************)
EXTENDS Sequences, Integers

ChunkMods == {"~f", "~l", "~m", "~h", "~case", "~swap", "~tr", "~td", "~inc"}
Glue      == {"nul", "sp", "nl"}

(* every sequence that differs from s by one small change *)
Edits(s) ==
    {Append(s, g) : g \in Glue}
    \cup {<<g>> \o s : g \in Glue}
    \cup {s \o s, <<>>, <<"o">>, Append(s, "o"), <<"o">> \o s}
    \cup {[s EXCEPT ![i] = @ \o m] : i \in DOMAIN s, m \in ChunkMods}
    \cup {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in DOMAIN s}
FewEdits(s) ==
    {Append(s, "nul"), <<>>, <<"o">>}
    \cup {[s EXCEPT ![i] = @ \o m] : i \in DOMAIN s, m \in {"~f", "~tr"}}
=============================================================================
