----------------------------- MODULE GroupLaws ------------------------------
(***************************************************************************)
(* The interface that SPAKE2 has to its group, used directly: expressions  *)
(* over elements and scalars, and the elements they denote in a group of   *)
(* prime order of which nothing else is known.  Two expressions have the   *)
(* same value for every choice of the elements and scalars in them iff     *)
(* their denotations are equal; the harness evaluates all expressions with *)
(* the implementation and compares.                                        *)
(***************************************************************************)
EXTENDS Terms, Json

CONSTANT Deep

El(n)     == [k |-> "el", n |-> n]         \* an element
Const(n)  == [k |-> "const", n |-> n]      \* M, N or S
Base(s)   == [k |-> "base", s |-> s]       \* basepoint_mult
Mul(e, s) == [k |-> "mul", e |-> e, s |-> s]
Add(e, f) == [k |-> "add", e |-> e, f |-> f]
Code(e)   == [k |-> "code", e |-> e]       \* encoded and decoded again

(* scalars *)
Sc(n)     == [k |-> "sc", n |-> n]
Neg(s)    == [k |-> "neg", s |-> s]

RECURSIVE ScalarOf(_)
ScalarOf(s) == IF s.k = "sc" THEN PAtom(Leaf("sc", <<s.n>>)) ELSE PNeg(ScalarOf(s.s))

RECURSIVE Den(_)
Den(e) ==
    CASE e.k = "el"    -> EBase(Leaf("el", <<e.n>>))
      [] e.k = "const" -> EBase(Leaf(e.n, <<>>))
      [] e.k = "base"  -> EMul(ScalarOf(e.s), EBase(Leaf("B", <<>>)))
      [] e.k = "mul"   -> EMul(ScalarOf(e.s), Den(e.e))
      [] e.k = "add"   -> EAdd(Den(e.e), Den(e.f))
      [] e.k = "code"  -> Den(e.e)

Scalars == {Sc("x"), Sc("y"), Neg(Sc("x")), Neg(Neg(Sc("y")))}
L0 == {El("e"), El("f"), Const("M"), Const("N"), Const("S")} \cup {Base(s) : s \in Scalars}
Grow(A, C) == {Mul(e, s) : e \in A, s \in Scalars} \cup {Add(e, f) : e \in A, f \in C} \cup {Add(f, e) : e \in A, f \in C}
              \cup {Code(e) : e \in A}
L1 == Grow(L0, L0)
L2 == Grow(L1, L0)
L1small == {e \in L1 : e.k = "mul"} \cup {Add(e, f) : e \in {El("e"), Base(Sc("x"))}, f \in L0}

VARIABLE expr
Init == expr \in L0 \cup L1 \cup L2 \cup {Add(e, f) : e \in L1small, f \in L1small}
               \cup (IF Deep THEN Grow({e \in L2 : e.k # "code"}, {El("f"), Base(Sc("x"))}) ELSE {})
Next == UNCHANGED expr
Emit == PrintT(ToJson([x |-> expr, d |-> Out(Den(expr))]))

(* the laws themselves, of the specification *)
Laws ==
    /\ (expr.k = "add") => Den(expr) = Den(Add(expr.f, expr.e))
    /\ (expr.k = "add" /\ expr.e.k = "add") => Den(expr) = Den(Add(expr.e.e, Add(expr.e.f, expr.f)))
    /\ (expr.k = "mul" /\ expr.e.k = "add") => Den(expr) = Den(Add(Mul(expr.e.e, expr.s), Mul(expr.e.f, expr.s)))
    /\ (expr.k = "mul" /\ expr.e.k = "mul") => Den(expr) = Den(Mul(Mul(expr.e.e, expr.s), expr.e.s))
    /\ (expr.k = "mul") => Den(Add(expr, Mul(expr.e, Neg(expr.s)))) = EZero
=============================================================================
