--------------------------- MODULE IntervalArith ----------------------------
(***************************************************************************)
(* Intervals of reals and arrays of them: what each operation of           *)
(* autobound/interval_arithmetic.py has to enclose (C01) and the smallest  *)
(* enclosing interval (C02).  An operand is [iv, s, lo, hi]: an array of   *)
(* intervals if iv, else a plain array (lo = hi).                          *)
(***************************************************************************)
EXTENDS Tensor

IV(lo, hi) == <<lo, hi>>
Pt(x) == <<x, x>>
MinOf(S) == CHOOSE x \in S : \A y \in S : ~RLt(y, x)
MaxOf(S) == CHOOSE x \in S : \A y \in S : ~RLt(x, y)
MagI(x) == RMax(RAbs(x[1]), RAbs(x[2]))
WidthI(x) == RSub(x[2], x[1])
AddI(x, y) == IV(RAdd(x[1], y[1]), RAdd(x[2], y[2]))
SubI(x, y) == IV(RSub(x[1], y[2]), RSub(x[2], y[1]))
NegI(x) == IV(RNeg(x[2]), RNeg(x[1]))
MulI(x, y) == LET P == {RMul(x[1], y[1]), RMul(x[1], y[2]), RMul(x[2], y[1]), RMul(x[2], y[2])} IN IV(MinOf(P), MaxOf(P))
ScaleI(c, x) == IF RLt(c, R0) THEN IV(RMul(c, x[2]), RMul(c, x[1])) ELSE IV(RMul(c, x[1]), RMul(c, x[2]))
PowI(x, k) == IF k = 0 THEN Pt(R1)
              ELSE LET p == RPowI(x[1], k)
                       q == RPowI(x[2], k)
                   IN IF k % 2 = 1 THEN IV(p, q)
                      ELSE IF RLt(x[1], R0) /\ RLt(R0, x[2]) THEN IV(R0, RMax(p, q)) ELSE IV(RMin(p, q), RMax(p, q))
HullI(x, y) == IV(RMin(x[1], y[1]), RMax(x[2], y[2]))
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN Pt(R0) ELSE AddI(Head(s), SumI(Tail(s)))

\* Operands.
El(a, k) == <<a.lo[k], a.hi[k]>>
WellFormedOperand(a) == \A k \in DOMAIN a.lo : ~RLt(a.hi[k], a.lo[k])

\* A point of an operand: sample q picks the end points first, then mixtures.
Weights == <<RInt(0), RInt(1), RDyadic(1, -1), RDyadic(1, -2), RDyadic(3, -2)>>
Weight(q, k) == CASE q = 1 -> R0
                  [] q = 2 -> R1
                  [] q = 3 -> RInt(k % 2)
                  [] q = 4 -> RInt((k + 1) % 2)
                  [] q = 5 -> RInt((k \div 2) % 2)
                  [] OTHER -> Weights[1 + ((k * (q + 1) + q * q) % 5)]
PointOf(a, q) ==
  IF ~a.iv THEN a.lo
  ELSE [k \in DOMAIN a.lo |-> LET w == Weight(q, k) IN
          IF w = R0 THEN a.lo[k] ELSE IF w = R1 THEN a.hi[k] ELSE RAdd(a.lo[k], RMul(w, RSub(a.hi[k], a.lo[k])))]
MagOf(a) == [k \in DOMAIN a.lo |-> RMax(RAbs(a.lo[k]), RAbs(a.hi[k]))]
=============================================================================
