----------------------------- MODULE Spake2Sym ------------------------------
(* Spake2 over the symbolic group. *)
EXTENDS Terms

EncT(e)       == Node("enc", <<e>>)
(* other encodings that decode: of the same element (non-canonical), "alt" *)
DecodesT(b)   == b.k \in {"enc", "alt"}
DecT(b)       == b.a[1]
PwAtom(s)     == PAtom(Hash("pwscalar", <<Str(s)>>))
BB            == EBase(Leaf("B", <<>>))
BM            == EBase(Leaf("M", <<>>))
BN            == EBase(Leaf("N", <<>>))
BS            == EBase(Leaf("S", <<>>))
BaseMulT(x)   == EMul(x, BB)

Sp == INSTANCE Spake2 WITH
        GAdd <- EAdd, GMul <- EMul, GBase <- BaseMulT, SNeg <- PNeg, PwScalar <- PwAtom,
        GM <- BM, GN <- BN, GS <- BS, Enc <- EncT, Decodes <- DecodesT, Dec <- DecT
=============================================================================
