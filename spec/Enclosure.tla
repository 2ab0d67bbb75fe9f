------------------------------ MODULE Enclosure ------------------------------
(***************************************************************************)
(* Taylor enclosures: polynomials in a displacement z (a scalar or an      *)
(* array) with interval coefficients.  (autobound/enclosure_arithmetic.py, *)
(* properties C04, C05, C06; also the results of taylor_bounds.)           *)
(*                                                                         *)
(* An enclosure is a sequence of coefficients [iv, s, lo, hi]; the i-th    *)
(* (from 0) has the shape  batch shape \o i copies of the shape sx of z.   *)
(* It denotes, at a displacement z, for each output element, the interval  *)
(* of the values of all polynomials whose coefficients lie in it.          *)
(***************************************************************************)
EXTENDS IntervalArith, FiniteSets, FiniteSetsExt

BatchShape(co, i, sx) == First0(co.s, Len(co.s) - i * Len(sx))
ShapesOK(E, sx) ==
  \A k \in DOMAIN E :
     LET i == k - 1
         RECURSIVE Rep(_) Rep(n) == IF n = 0 THEN <<>> ELSE sx \o Rep(n - 1)
     IN /\ Len(E[k].s) >= i * Len(sx)
        /\ Last0(E[k].s, i * Len(sx)) = Rep(i)
        /\ Len(E[k].lo) = Size(E[k].s) /\ Len(E[k].hi) = Size(E[k].s)
RECURSIVE OutBatch(_, _, _)
OutBatch(E, sx, k) == IF k = 0 THEN <<>> ELSE BroadcastShape(OutBatch(E, sx, k - 1), BatchShape(E[k], k - 1, sx))
BatchOf(E, sx) == OutBatch(E, sx, Len(E))
RECURSIVE OutBatchOK(_, _, _)
OutBatchOK(E, sx, k) == k = 0 \/ (OutBatchOK(E, sx, k - 1) /\ Broadcastable(OutBatch(E, sx, k - 1), BatchShape(E[k], k - 1, sx)))

\* The values of all monomials of degree i at z, in row-major order.
RECURSIVE MonoValues(_, _)
MonoValues(z, i) == IF i = 0 THEN <<R1>>
                    ELSE LET m == Force(MonoValues(z, i - 1))
                             n == Len(z)
                         IN [k \in 1..(Len(m) * n) |-> RMul(m[1 + (k - 1) \div n], z[1 + ((k - 1) % n)])]
Slice0(d, b, n) == SubSeq(d, (b - 1) * n + 1, b * n)
\* Range of <c, z^i> for one batch element: the coefficients are independent.
TermRange(co, b, m) ==
  LET n == Len(m)
      lo == Slice0(co.lo, b, n)
      hi == Slice0(co.hi, b, n)
  IN IF ~co.iv THEN Pt(RDotProduct(lo, m))
     ELSE <<RDotProduct([j \in 1..n |-> IF RLt(m[j], R0) THEN hi[j] ELSE lo[j]], m),
            RDotProduct([j \in 1..n |-> IF RLt(m[j], R0) THEN lo[j] ELSE hi[j]], m)>>
\* The enclosure at z: one interval for each element of the output shape so.
EvalTo(E, sx, so, z) ==
  LET M == Force([k \in DOMAIN E |-> MonoValues(z, k - 1)])
      T == Force([k \in DOMAIN E |-> BTable(BatchShape(E[k], k - 1, sx), so)])
  IN [b \in 1..Size(so) |-> SumI([k \in DOMAIN E |-> TermRange(E[k], T[k][b], M[k])])]
EvalAt(E, sx, z) == EvalTo(E, sx, BatchOf(E, sx), z)
\* Sum of the magnitudes of all terms: the yardstick for roundoff.
MagnitudeTo(E, sx, so, z) ==
  LET az == [k \in DOMAIN z |-> RAbs(z[k])]
      M == Force([k \in DOMAIN E |-> MonoValues(az, k - 1)])
      T == Force([k \in DOMAIN E |-> BTable(BatchShape(E[k], k - 1, sx), so)])
  IN [b \in 1..Size(so) |-> RSum([k \in DOMAIN E |->
         LET n == Len(M[k]) IN RDotProduct([j \in 1..n |-> LET p == (T[k][b] - 1) * n + j IN RMax(RAbs(E[k].lo[p]), RAbs(E[k].hi[p]))], M[k])])]

\* Range over a box of displacements, term by term (not the smallest).
LooseRangeTo(E, sx, so, box) ==
  LET n == Len(box)
      RECURSIVE MI(_) MI(i) == IF i = 0 THEN <<Pt(R1)>> ELSE LET m == MI(i - 1) IN [k \in 1..(Len(m) * n) |-> MulI(m[1 + (k - 1) \div n], box[1 + ((k - 1) % n)])]
      M == Force([k \in DOMAIN E |-> MI(k - 1)])
      T == Force([k \in DOMAIN E |-> BTable(BatchShape(E[k], k - 1, sx), so)])
  IN [b \in 1..Size(so) |-> SumI([k \in DOMAIN E |->
         LET q == Len(M[k]) IN SumI([j \in 1..q |-> MulI(El(E[k], (T[k][b] - 1) * q + j), M[k][j])])])]

\* Points of a box: the corners that samples 1 and 2 pick first, then others.
BoxPoint(box, q) == [k \in DOMAIN box |-> LET w == Weight(q, k) IN RAdd(box[k][1], RMul(w, RSub(box[k][2], box[k][1])))]
PickFrom(iv, q) == [k \in DOMAIN iv |-> LET w == Weight(q, k) IN IF w = R0 THEN iv[k][1] ELSE IF w = R1 THEN iv[k][2] ELSE RAdd(iv[k][1], RMul(w, RSub(iv[k][2], iv[k][1])))]

-----------------------------------------------------------------------------
(* Polynomials in several variables, for enclosures whose coefficients are *)
(* numbers: functions from exponent vectors to reals.                      *)
ZeroExp(n) == [x \in 1..n |-> 0]
MPZero == [m \in {} |-> R0]
MPConst(n, v) == [m \in {ZeroExp(n)} |-> v]
MPAt(p, m) == IF m \in DOMAIN p THEN p[m] ELSE R0
Deg(m) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE m[k] + S(k - 1) IN S(Len(m))
MPAdd(p, q) == [m \in DOMAIN p \cup DOMAIN q |-> RAdd(MPAt(p, m), MPAt(q, m))]
MPNeg(p) == [m \in DOMAIN p |-> RNeg(p[m])]
MPScale(v, p) == [m \in DOMAIN p |-> RMul(v, p[m])]
MPAbs(p) == [m \in DOMAIN p |-> RAbs(p[m])]
VecAdd(u, v) == [x \in DOMAIN u |-> u[x] + v[x]]
\* Terms of degree more than D are dropped.
MPMul(p, q, D) ==
  LET S == {m \in {VecAdd(u, v) : u \in DOMAIN p, v \in DOMAIN q} : Deg(m) <= D}
      Diff(m, u) == [x \in DOMAIN u |-> m[x] - u[x]]
  IN [m \in S |-> LET U == {u \in DOMAIN p : Diff(m, u) \in DOMAIN q}
                      RECURSIVE Sum(_) Sum(T) == IF T = {} THEN R0 ELSE LET u == CHOOSE u \in T : TRUE IN RAdd(RMul(p[u], q[Diff(m, u)]), Sum(T \ {u}))
                  IN Sum(U)]
MPPow(p, e, D, n) ==
  LET RECURSIVE W(_) W(k) == IF k = 0 THEN MPConst(n, R1) ELSE MPMul(Force(W(k - 1)), p, D) IN W(e)
\* The exponent vector of position j (from 1) among the monomials of degree i.
ExpOf(j, i, n) ==
  LET RECURSIVE G(_, _)
      G(r, k) == IF k = 0 THEN ZeroExp(n) ELSE LET x == 1 + (r % n) IN [G(r \div n, k - 1) EXCEPT ![x] = @ + 1]
  IN G(j - 1, i)
\* The polynomial of batch element b (in output shape so), from the lower or upper ends.
CoefPoly(co, i, n, pos) ==
  LET q == n ^ i
      ev == Force([j \in 1..q |-> ExpOf(j, i, n)])
      S == {ev[j] : j \in 1..q}
  IN [m \in S |-> RSum([j \in 1..q |-> IF ev[j] = m THEN co.lo[(pos - 1) * q + j] ELSE R0])]
MPOf(E, sx, so, b) ==
  LET n == Size(sx)
      RECURSIVE G(_)
      G(k) == IF k = 0 THEN MPZero
              ELSE MPAdd(CoefPoly(E[k], k - 1, n, BPos(Unravel(b - 1, so), BatchShape(E[k], k - 1, sx))), G(k - 1))
  IN G(Len(E))
=============================================================================
