------------------------------- MODULE SrpSym -------------------------------
(***************************************************************************)
(* Srp over a symbolic ring.  A residue is a polynomial whose atoms are    *)
(* powers pw(base, m), m a monomial of exponents; a base is g, the         *)
(* multiplier k, an unknown value, or a sum that has no simpler root.      *)
(***************************************************************************)
EXTENDS Terms

PW(b, m)     == Node("pw", <<b, m>>)
G            == Leaf("g", <<>>)
KTerm        == Leaf("k", <<>>)

(* base^p as a residue, p an exponent *)
PowOf(b, p)  == LET F(m) == (PW(b, m) :> p.e[m])
                IN  PMono(Bag("mono", SumOver(DOMAIN p.e, F)))
GPowT(p)     == PowOf(G, p)
(* a residue to the power of an exponent: a single product distributes,    *)
(* any other sum becomes a base of its own                                 *)
Single(r)    == Cardinality(DOMAIN r.e) = 1 /\ \A m \in DOMAIN r.e : r.e[m] = 1
RPowT(r, p)  ==
    IF Single(r)
    THEN LET mm == CHOOSE m \in DOMAIN r.e : TRUE
             F(q) == LET H(a) == (PW(a.a[1], MMul(a.a[2], q)) :> mm.e[a] * p.e[q])
                     IN  SumOver(DOMAIN mm.e, H)
         IN  PMono(Bag("mono", SumOver(DOMAIN p.e, F)))
    ELSE PowOf(r, p)
RSubT(x, y)  == PAdd(x, PNeg(y))

(* a residue nothing is known about *)
Unknown(t)   == PMono(MAtom(PW(t, MOne)))

(* integers: a residue plus a multiple of N *)
IntT(r, o)   == Node("int", <<r, Leaf(o, <<>>)>>)
CanonT(r)    == IntT(r, "canon")
ResT(i)      == i.a[1]

HKT          == Unknown(KTerm)
HXT(s, u, p) == PAtom(Hash("x", <<Str(s), Hash("id", <<Str(u \o <<"colon">> \o p)>>)>>))
HUT(A, B)    == PAtom(Hash("u", <<A, B>>))
HM1T(A, B, S) == Hash("m1", <<A, B, CanonT(S)>>)
HM2T(A, m, S) == Hash("m2", <<A, m, CanonT(S)>>)

Sr == INSTANCE Srp WITH
        GPow <- GPowT, RAdd <- PAdd, RSub <- RSubT, RMul <- PMul, RPow <- RPowT, RZero <- PZero,
        XAdd <- PAdd, XMul <- PMul, Res <- ResT, Canon <- CanonT,
        HK <- HKT, HX <- HXT, HU <- HUT, HM1 <- HM1T, HM2 <- HM2T, Bytes <- CanonT
=============================================================================
