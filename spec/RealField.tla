----------------------------- MODULE RealField -----------------------------
(***************************************************************************)
(* The real numbers as the specification uses them.  The definitions below *)
(* give the mathematical meaning of each operator; TLC does not evaluate   *)
(* them but calls java/autobound/Overrides.java, which computes with       *)
(* rigorous brackets of dyadic rationals: every value is exact, or an      *)
(* interval of relative width about 2^-140 certain to contain the real     *)
(* number.  Consequently the two comparisons are only TRUE when they are   *)
(* certain, and a verdict "a exceeds b" is never due to rounding of the    *)
(* specification's own arithmetic.  Values outside the domain of an        *)
(* operation (1/0, Log(-1), Inf - Inf) are Undefined; Undefined compares   *)
(* FALSE with everything.                                                   *)
(***************************************************************************)
EXTENDS Integers, Reals

RInt(k)       == k                      \* the integer k as a real
RRat(p, q)    == p / q
RDyadic(m, e) == IF e >= 0 THEN m * 2^e ELSE m / 2^(-e)

RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == a / b
RNeg(a)    == 0 - a
RAbs(a)    == IF a < 0 THEN 0 - a ELSE a
RMin(a, b) == IF a <= b THEN a ELSE b
RMax(a, b) == IF a <= b THEN b ELSE a

RECURSIVE RPowI(_, _)
RPowI(a, k) == IF k = 0 THEN 1 ELSE IF k < 0 THEN 1 / RPowI(a, 0 - k) ELSE a * RPowI(a, k - 1)

(* exp(a) is the only real above every partial sum of its series at |a|,   *)
(* inverted for negative a, and below every such sum plus its tail bound.  *)
RECURSIVE ExpTerm(_, _)
ExpTerm(a, k) == IF k = 0 THEN 1 ELSE (ExpTerm(a, k - 1) * a) / k
RECURSIVE ExpSum(_, _)
ExpSum(a, k) == IF k = 0 THEN 1 ELSE ExpSum(a, k - 1) + ExpTerm(a, k)
RExp(a) == CHOOSE y \in Real :
             \A eps \in Real : eps > 0 =>
               \E K \in Nat : \A k \in Nat : k >= K => (ExpSum(a, k) - y < eps /\ y - ExpSum(a, k) < eps)
RLog(a) == CHOOSE y \in Real : RExp(y) = a
RPow(a, p) == IF p \in Int THEN RPowI(a, p) ELSE RExp(p * RLog(a))

\* Some real from a to b.  What TLC finds to be certain about it holds for all of them.
RBetween(a, b) == CHOOSE x \in Real : a <= x /\ x <= b

RLt(a, b)  == a < b
RLeq(a, b) == a <= b
RFinite(a) == a \in Real
RUndefined(a) == a \notin Real /\ a # Infinity /\ a # 0 - Infinity
RExact(a) == TRUE                       \* (the bracket is a single point)

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE SumTo(s, k - 1) + s[k]
RECURSIVE DotTo(_, _, _)
DotTo(s, t, k) == IF k = 0 THEN 0 ELSE DotTo(s, t, k - 1) + s[k] * t[k]
RSum(s) == LET n == CHOOSE n \in Nat : DOMAIN s = 1..n IN SumTo(s, n)
\* Product of two power series, to the same degree.
RConv(s, t) == [i \in DOMAIN s |-> DotTo([j \in 1..i |-> s[j]], [j \in 1..i |-> t[i + 1 - j]], i)]
RDotProduct(s, t) == LET n == CHOOSE n \in Nat : DOMAIN s = 1..n IN DotTo(s, t, n)

\* TLC evaluates the whole of v at once (TLC!TLCEval leaves nested functions unevaluated).
Force(v) == v

-----------------------------------------------------------------------------
(* Derived operators. *)
R0 == RInt(0)
R1 == RInt(1)
RSq(a) == RMul(a, a)
RScale(k, a) == RMul(RInt(k), a)
RHalf(a) == RMul(RDyadic(1, -1), a)
\* "a is greater than b by more than tol", certainly.
Exceeds(a, b, tol) == RLt(RAdd(b, tol), a)
\* a and b are certainly farther apart than tol.
FarApart(a, b, tol) == Exceeds(a, b, tol) \/ Exceeds(b, a, tol)
=============================================================================
