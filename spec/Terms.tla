------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Symbolic terms shared by all protocol specifications.                   *)
(*                                                                         *)
(* Every value that the protocols exchange or return is a term of one      *)
(* uniform shape, so that TLC can compare any two of them and so that the  *)
(* conformance harness can read them back from JSON:                       *)
(*                                                                         *)
(*    k : the constructor                                                  *)
(*    v : literal arguments (names, chunks of strings)                     *)
(*    a : argument terms, in order                                         *)
(*    e : for commutative constructors, argument terms with multiplicity   *)
(*                                                                         *)
(* Two values of the implementation are equal exactly if their terms are   *)
(* (perfect cryptography: hashes are free constructors, group elements are *)
(* equal only by the laws of a commutative group with unknown discrete     *)
(* logarithms between distinct bases).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyFn == [x \in {} |-> 0]

T(k, v, a, e) == [k |-> k, v |-> v, a |-> a, e |-> e]
Leaf(k, v)    == T(k, v, <<>>, EmptyFn)
Node(k, a)    == T(k, <<>>, a, EmptyFn)
Bag(k, e)     == T(k, <<>>, <<>>, e)

None == Leaf("none", <<>>)

(* Strings are sequences of chunks; chunks stand for byte strings that are  *)
(* chosen by the harness such that different sequences get different bytes. *)
Str(s)     == Leaf("str", s)

(* A hash function applied to a tuple of arguments. *)
Hash(f, a) == T("hash", <<f>>, a, EmptyFn)

(* A value drawn from a random number generator, named by session and use. *)
Rnd(s, n)  == Leaf("rnd", <<s, n>>)

(***************************************************************************)
(* Finite maps term -> Int without zero entries ("bags" with signed        *)
(* multiplicities).                                                        *)
(***************************************************************************)
Get(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
BagPlus(b, c) ==
    LET nz == {x \in DOMAIN b \cup DOMAIN c : Get(b, x) + Get(c, x) # 0}
    IN  [x \in nz |-> Get(b, x) + Get(c, x)]
One(x) == (x :> 1)
BagScale(n, b) == IF n = 0 THEN EmptyFn ELSE [x \in DOMAIN b |-> n * b[x]]

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN EmptyFn ELSE BagPlus(Head(q), SumSeq(Tail(q)))

SumOver(S, F(_)) == LET q == SetSeq(S) IN SumSeq([i \in DOMAIN q |-> F(q[i])])

(***************************************************************************)
(* Monomials in scalar atoms (integer exponents, so inverses exist) and    *)
(* polynomials over them.                                                  *)
(***************************************************************************)
MOne       == Bag("mono", EmptyFn)
MAtom(t)   == Bag("mono", One(t))
MMul(m, n) == Bag("mono", BagPlus(m.e, n.e))
MInv(m)    == Bag("mono", BagScale(-1, m.e))

PZero      == Bag("poly", EmptyFn)
POne       == Bag("poly", One(MOne))
PMono(m)   == Bag("poly", One(m))
PAtom(t)   == PMono(MAtom(t))
PAdd(p, q) == Bag("poly", BagPlus(p.e, q.e))
PNeg(p)    == Bag("poly", BagScale(-1, p.e))
PMul(p, q) ==
    LET R(m) == LET Q(n) == (MMul(m, n) :> (p.e[m] * q.e[n]))
                IN  SumOver(DOMAIN q.e, Q)
    IN  Bag("poly", SumOver(DOMAIN p.e, R))
(* defined for polynomials of a single monomial with coefficient 1 *)
PInv(p)    == LET m == CHOOSE x \in DOMAIN p.e : TRUE IN PMono(MInv(m))

(***************************************************************************)
(* Group elements: linear combinations of bases with polynomial weights.   *)
(***************************************************************************)
LC(m, b)    == Node("lc", <<m, b>>)
EZero       == Bag("elt", EmptyFn)
EBase(b)    == Bag("elt", One(LC(MOne, b)))
EAdd(x, y)  == Bag("elt", BagPlus(x.e, y.e))
EMul(p, x)  ==
    LET R(m) == LET Q(l) == (LC(MMul(m, l.a[1]), l.a[2]) :> (p.e[m] * x.e[l]))
                IN  SumOver(DOMAIN x.e, Q)
    IN  Bag("elt", SumOver(DOMAIN p.e, R))

(***************************************************************************)
(* Printing: the bag of a commutative node becomes a sequence of pairs.    *)
(* Empty fields are left out.                                              *)
(***************************************************************************)
RECURSIVE Out(_)
Out(t) ==
    LET ks == SetSeq(DOMAIN t.e)
    IN  [k |-> t.k, v |-> t.v,
         a |-> [i \in DOMAIN t.a |-> Out(t.a[i])],
         e |-> [i \in DOMAIN ks |-> [t |-> Out(ks[i]), n |-> t.e[ks[i]]]]]
=============================================================================
