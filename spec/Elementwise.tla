---------------------------- MODULE Elementwise -----------------------------
(***************************************************************************)
(* The elementwise functions of autobound/elementwise_functions.py and     *)
(* primitive_enclosures.py: their derivatives, critical points, ranges and *)
(* Taylor remainders (properties C07 to C10), computed from differential   *)
(* equations, independently of the formulas and constants in the code.     *)
(* A function is a record [f |-> name, p |-> exponent, for "pow"].          *)
(***************************************************************************)
EXTENDS IntervalArith

Names == {"abs", "exp", "log", "sigmoid", "softplus", "swish", "pow"}
Fn(name) == [f |-> name, p |-> R1]

RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
RFact(k) == RInt(Fact(k))

-----------------------------------------------------------------------------
(* Jets: the Taylor coefficients of degree 0..n at x (positions 1..n+1).   *)
RECURSIVE ExpJet(_, _)
ExpJet(x, n) == IF n = 0 THEN <<RExp(x)>> ELSE LET j == ExpJet(x, n - 1) IN Append(j, RDiv(j[n], RInt(n)))
RECURSIVE LogJet(_, _)
LogJet(x, n) == IF n = 0 THEN <<RLog(x)>> ELSE Append(LogJet(x, n - 1), RDiv(RInt(IF n % 2 = 1 THEN 1 ELSE -1), RMul(RInt(n), RPowI(x, n))))
\* s' = s * (1 - s); t is 1 - s.
RECURSIVE SigmoidJetFrom(_, _, _)
SigmoidJetFrom(s0, t0, n) ==
  IF n = 0 THEN <<s0>>
  ELSE LET s == Force(SigmoidJetFrom(s0, t0, n - 1))
       IN Append(s, RDiv(RSum([i \in 1..n |-> RMul(s[i], IF n - i = 0 THEN t0 ELSE RNeg(s[n - i + 1]))]), RInt(n)))
Sigmoid(x) == IF RLt(x, R0) THEN LET e == Force(RExp(x)) IN RDiv(e, RAdd(R1, e)) ELSE RDiv(R1, RAdd(R1, RExp(RNeg(x))))
SigmoidJet(x, n) == SigmoidJetFrom(Force(Sigmoid(x)), Force(Sigmoid(RNeg(x))), n)
Softplus(x) == IF RLt(x, R0) THEN RLog(RAdd(R1, RExp(x))) ELSE RAdd(x, RLog(RAdd(R1, RExp(RNeg(x)))))
SoftplusJet(x, n) == LET s == Force(SigmoidJet(x, n)) IN Force([i \in 1..(n + 1) |-> IF i = 1 THEN Softplus(x) ELSE RDiv(s[i - 1], RInt(i - 1))])
SwishJet(x, n) == LET s == Force(SigmoidJet(x, n)) IN Force([i \in 1..(n + 1) |-> IF i = 1 THEN RMul(x, s[1]) ELSE RAdd(RMul(x, s[i]), s[i - 1])])
AbsJet(x, n) == [i \in 1..(n + 1) |-> CASE i = 1 -> RAbs(x) [] i = 2 -> (IF RLt(x, R0) THEN RInt(-1) ELSE IF RLt(R0, x) THEN R1 ELSE R0) [] OTHER -> R0]
\* Binomial coefficients of a real exponent.
RECURSIVE Binom(_, _)
Binom(p, k) == IF k = 0 THEN R1 ELSE RDiv(RMul(Binom(p, k - 1), RSub(p, RInt(k - 1))), RInt(k))
IsZero(v) == RLeq(v, R0) /\ RLeq(R0, v)
PowJet(p, x, n) == [i \in 1..(n + 1) |-> LET b == Force(Binom(p, i - 1)) IN IF IsZero(b) THEN R0 ELSE RMul(b, RPow(x, RSub(p, RInt(i - 1))))]
Jet(F, x, n) ==
  CASE F.f = "abs" -> AbsJet(x, n)
    [] F.f = "exp" -> ExpJet(x, n)
    [] F.f = "log" -> LogJet(x, n)
    [] F.f = "sigmoid" -> SigmoidJet(x, n)
    [] F.f = "softplus" -> SoftplusJet(x, n)
    [] F.f = "swish" -> SwishJet(x, n)
    [] F.f = "pow" -> PowJet(F.p, x, n)
ValueAt(F, x) == Jet(F, x, 0)[1]
\* The derivative of order k.
Deriv(F, k, x) == RMul(RFact(k), Jet(F, x, k)[k + 1])

-----------------------------------------------------------------------------
(* Derivatives of the sigmoid as s (1 - s) Q_k(s), Q_k an integer          *)
(* polynomial (sequence of coefficients); used for proofs at infinity and  *)
(* to cross-check the jets.                                                *)
PAt(q, k) == IF k \in DOMAIN q THEN q[k] ELSE 0
RECURSIVE Q(_)
Q(k) == IF k = 1 THEN <<1>>
        ELSE LET q == Force(Q(k - 1))
                 d(j) == j * PAt(q, j + 1)            \* coefficients of q', from j = 1 for s^0
             IN Force([j \in 1..k |-> PAt(q, j) - 2 * PAt(q, j - 1) + (IF j >= 2 THEN d(j - 1) ELSE 0) - (IF j >= 3 THEN d(j - 2) ELSE 0)])
RECURSIVE HornerInt(_, _, _)
HornerInt(q, s, j) == IF j > Len(q) THEN R0 ELSE RAdd(RInt(q[j]), RMul(s, HornerInt(q, s, j + 1)))
QAt(k, s) == HornerInt(Force(Q(k)), s, 1)

-----------------------------------------------------------------------------
(* Critical points: where the derivative of order k has a local minimum or *)
(* maximum, [x, max] in increasing order.  They are bracketed by bisection *)
(* on the sign of the next derivative; MC_Extrema proves that they are all.*)
Sgn(v) == IF RLt(v, R0) THEN -1 ELSE IF RLt(R0, v) THEN 1 ELSE 0
RECURSIVE Bisect(_, _, _, _, _, _)
Bisect(F, k, a, b, sa, n) ==
  IF n = 0 THEN RBetween(a, b)
  ELSE LET m == Force(RHalf(RAdd(a, b)))
           sm == Force(Sgn(Deriv(F, k, m)))
       IN IF sm = 0 THEN m ELSE IF sm = sa THEN Bisect(F, k, Force(m), b, sa, n - 1) ELSE Bisect(F, k, a, Force(m), sa, n - 1)
GridStep == 3      \* the grid has steps of 2^-3, offset so that it avoids 0
GridPoint(j) == RAdd(RDyadic(j, -GridStep), RDyadic(1, -7))
GridMax == 96
CriticalOf(F, k) ==
  LET sg == Force([j \in (0 - GridMax)..GridMax |-> Sgn(Deriv(F, k + 1, GridPoint(j)))])
      RECURSIVE C(_)
      C(j) == IF j = GridMax THEN <<>>
              ELSE IF sg[j] = sg[j + 1] THEN C(j + 1)
              ELSE << [x |-> Force(Bisect(F, k + 1, GridPoint(j), GridPoint(j + 1), sg[j], 70)), max |-> sg[j] = 1] >> \o C(j + 1)
  IN C(0 - GridMax)
MaxOrder == 6
\* (TLC would compute these constants again at every use, so that they are kept in registers.)
CriticalTable(name) == [k \in 0..MaxOrder |-> CriticalOf(Fn(name), k)]
ASSUME TLCSet(41, Force(CriticalTable("softplus"))) /\ TLCSet(42, Force(CriticalTable("swish")))
SoftplusCritical == TLCGet(41)
SwishCritical == TLCGet(42)
\* (p - k) as an integer, if p is a non-negative integer.
NatP(F) == CHOOSE n \in 0..40 : IsZero(RSub(F.p, RInt(n)))
IsNatP(F) == \E n \in 0..40 : IsZero(RSub(F.p, RInt(n)))
Critical(F, k) ==
  CASE F.f = "softplus" -> SoftplusCritical[k]
    [] F.f = "sigmoid" -> SoftplusCritical[k + 1]
    [] F.f = "swish" -> SwishCritical[k]
    [] F.f = "abs" -> IF k = 0 THEN << [x |-> R0, max |-> FALSE] >> ELSE <<>>
    [] F.f \in {"exp", "log"} -> <<>>
    [] F.f = "pow" -> IF IsNatP(F) THEN (LET d == NatP(F) - k IN IF d > 0 /\ d % 2 = 0 THEN << [x |-> R0, max |-> FALSE] >> ELSE <<>>) ELSE <<>>
\* Critical points certainly inside (a, b), widened by w.
Inside(F, k, a, b, w) == SelectSeq(Critical(F, k), LAMBDA q : RLt(RSub(a, w), q.x) /\ RLt(q.x, RAdd(b, w)))
\* The function is defined and smooth on [a, b].
Defined(F, a, b) ==
  CASE F.f = "log" -> RLt(R0, a)
    [] F.f = "pow" -> \/ IsNatP(F)
                      \/ RLt(R0, a)
                      \/ RLt(b, R0) /\ \E n \in -40..40 : IsZero(RSub(F.p, RInt(n)))
    [] OTHER -> TRUE
\* The turning points of the derivative of order k over [a, b].
Turning(F, k, a, b) == LET I == Inside(F, k, a, b, R0) IN <<a>> \o [j \in DOMAIN I |-> I[j].x] \o <<b>>
RangeOf(F, k, a, b) ==
  LET v == Force([j \in DOMAIN Turning(F, k, a, b) |-> Deriv(F, k, Turning(F, k, a, b)[j])])
      S == {v[j] : j \in DOMAIN v}
      RECURSIVE Fold(_, _) Fold(j, acc) == IF j > Len(v) THEN acc ELSE Fold(j + 1, <<RMin(acc[1], v[j]), RMax(acc[2], v[j])>>)
  IN Fold(2, <<v[1], v[1]>>)
\* The derivative of order k is monotone over [a, b] (up to changes of at most tol).
MonotoneUp(F, k, a, b, tol) ==
  LET T == Turning(F, k, a, b)
      v == Force([j \in DOMAIN T |-> Deriv(F, k, T[j])])
  IN \A j \in 1..(Len(v) - 1) : ~Exceeds(v[j], v[j + 1], tol)
MonotoneDown(F, k, a, b, tol) ==
  LET T == Turning(F, k, a, b)
      v == Force([j \in DOMAIN T |-> Deriv(F, k, T[j])])
  IN \A j \in 1..(Len(v) - 1) : ~Exceeds(v[j + 1], v[j], tol)

-----------------------------------------------------------------------------
(* Taylor remainders. *)
\* The polynomial of degree less than k at x.
TaylorAt(J, k, d) == RSum([i \in 1..k |-> RMul(J[i], RPowI(d, i - 1))])
TaylorMag(J, k, d) == RSum([i \in 1..k |-> RMul(RAbs(J[i]), RPowI(RAbs(d), i - 1))])
\* (F(x) - Taylor polynomial of degree k - 1 at x0) / (x - x0)^k, continued at x0.
Ratio(F, J, k, x0, x) == IF IsZero(RSub(x, x0)) THEN J[k + 1]
                         ELSE RDiv(RSub(ValueAt(F, x), TaylorAt(J, k, RSub(x, x0))), RPowI(RSub(x, x0), k))
=============================================================================
