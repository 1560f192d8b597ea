------------------------------- MODULE Spake2 -------------------------------
(***************************************************************************)
(* SPAKE2 as implemented by spake2/src/lib.rs and spake2/src/ed25519.rs.   *)
(*                                                                         *)
(* The module contains the session transitions as operators; it is         *)
(* parameterised by the group, as Spake2<G: Group> is.  Spake2MC gives the *)
(* group symbolically (linear combinations over unrelated bases),          *)
(* Spake2Toy concretely (integers modulo a small prime), All interleaves   *)
(* its sessions with those of the other protocols.                         *)
(*                                                                         *)
(* A string is a sequence of chunks (see Terms).  A wire message is        *)
(*   [len  : "ok" or anything else (wrong length),                         *)
(*    tag  : the side byte: "A", "B", "S" or any other name,               *)
(*    body : the encoded element, as a term]                               *)
(***************************************************************************)
EXTENDS Terms

CONSTANTS
    GAdd(_, _),         \* Group::add
    GMul(_, _),         \* Group::scalarmult, arguments scalar, element
    GBase(_),           \* Group::basepoint_mult
    SNeg(_),            \* Group::scalar_neg
    PwScalar(_),        \* Group::hash_to_scalar, of a string
    GM, GN, GS,         \* Group::const_m, const_n, const_s
    Enc(_),             \* Group::element_to_bytes
    Decodes(_),         \* is Group::bytes_to_element Some(_)?
    Dec(_)              \* its value then

Roles == {"A", "B", "S"}

PeerTag(role) == CASE role = "A" -> "B" [] role = "B" -> "A" [] role = "S" -> "S"

(* what a role blinds its own message with, and removes from the peer's *)
Blind(role)   == CASE role = "A" -> GM [] role = "B" -> GN [] role = "S" -> GS
Unblind(role) == CASE role = "A" -> GN [] role = "B" -> GM [] role = "S" -> GS

(***************************************************************************)
(* start_a, start_b, start_symmetric: ids is <<idA, idB>> or <<idS>>.      *)
(***************************************************************************)
Session(role, pw, ids, x) ==
    [role |-> role, pw |-> pw, ids |-> ids, x |-> x,
     body |-> Enc(GAdd(GBase(x), GMul(PwScalar(pw), Blind(role))))]

Message(s) == [len |-> "ok", tag |-> s.role, body |-> s.body]

(* the bytes of a message, as a term *)
MsgTerm(m) == Node("msg", <<Leaf(m.tag, <<>>), m.body>>)

(* what the debug rendering of a session may depend on *)
DebugTerm(s) == Node("debug", <<Leaf(s.role, <<>>)>> \o [i \in DOMAIN s.ids |-> Str(s.ids[i])])

(***************************************************************************)
(* The transcript hash (hash_ab, hash_symmetric).  "sorted" stands for the *)
(* two bodies in ascending order of their bytes, hence is commutative.     *)
(***************************************************************************)
Sorted2(x, y) == Bag("sorted", BagPlus(One(x), One(y)))
HS(s)         == Hash("sha256", <<Str(s)>>)

Key(s, peer, k) ==
    CASE s.role = "A" -> Hash("sha256", <<HS(s.pw), HS(s.ids[1]), HS(s.ids[2]), s.body, peer, k>>)
      [] s.role = "B" -> Hash("sha256", <<HS(s.pw), HS(s.ids[1]), HS(s.ids[2]), peer, s.body, k>>)
      [] s.role = "S" -> Hash("sha256", <<HS(s.pw), HS(s.ids[1]), Sorted2(s.body, peer), k>>)

SharedPoint(s, peer) ==
    GMul(s.x, GAdd(Dec(peer), GMul(SNeg(PwScalar(s.pw)), Unblind(s.role))))

(***************************************************************************)
(* finish: the checks in their order, then the key.                        *)
(***************************************************************************)
Status(s, m) ==
    CASE m.len # "ok"                          -> "WrongLength"
      [] m.len = "ok" /\ (\/ m.tag # PeerTag(s.role)
                          \/ s.role = "S" /\ m.body = s.body)
                                               -> "BadSide"
      [] m.len = "ok" /\ m.tag = PeerTag(s.role)
         /\ ~(s.role = "S" /\ m.body = s.body)
         /\ ~Decodes(m.body)                   -> "CorruptMessage"
      [] OTHER                                 -> "Ok"

Finish(s, m) ==
    LET st == Status(s, m)
    IN  [status |-> st,
         key    |-> IF st = "Ok" THEN Key(s, m.body, Enc(SharedPoint(s, m.body))) ELSE None]
=============================================================================
