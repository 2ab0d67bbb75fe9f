------------------------- MODULE Trace_Elementwise --------------------------
(* Checks recorded answers about elementwise functions: C07 (facts), C08   *)
(* (enclosures are valid), C09 (and tight), C10 (element by element, back   *)
(* ends).                                                                  *)
EXTENDS Elementwise, TraceBase, FiniteSets
CONSTANT Samples
Tol(t) == IF t.f32 THEN RDyadic(1, -15) ELSE RDyadic(1, -33)
Tiny == RDyadic(1, -900)
Max2(a, b) == RMax(a, b)
F(t) == [f |-> t.f, p |-> t.p]
Near(a, b, tol) == ~FarApart(a, b, tol)
Finite(v) == RFinite(v)
\* Both undefined, or the same infinity, or close.
Same(a, b, tol) == IF RFinite(a) /\ RFinite(b) THEN Near(a, b, tol) ELSE (RUndefined(a) /\ RUndefined(b)) \/ (~RUndefined(a) /\ ~RUndefined(b) /\ ~RFinite(a) /\ ~RFinite(b) /\ (RLt(R0, a) <=> RLt(R0, b)))

\* Highest derivative order for which the code promises its facts; -1: any.
Highest(f) == CASE f = "abs" -> 1 [] f = "sigmoid" -> 4 [] f = "softplus" -> 5 [] f = "swish" -> 5 [] OTHER -> 1000
HighestFunction(f) == CASE f = "abs" -> 1 [] f = "sigmoid" -> 4 [] f = "softplus" -> 5 [] f = "swish" -> 4 [] OTHER -> 1000
Lowest(t) == t.kind \in {"deriv", "taylor", "range"}
Supported(t) == t.f \in Names /\ t.k + (IF t.kind = "taylor" THEN t.n ELSE 0) <= (IF Lowest(t) THEN HighestFunction(t.f) ELSE Highest(t.f))

\* Size of the terms that are added up to get the derivative of order k at x.
Scale(t, k, x) ==
  CASE t.f \in {"sigmoid", "softplus", "swish"} ->
         LET ax == RAbs(x)
             e == RMul(RExp(RNeg(ax)), RAdd(R1, ax))
             lowest == (t.f = "softplus" /\ k = 0) \/ (t.f = "sigmoid" /\ k = 0) \/ (t.f = "softplus" /\ k = 1) \/ (t.f = "swish" /\ k <= 1)
         IN RMul(RInt(4 * Fact(k)), IF lowest THEN RMin(RAdd(R1, ax), RAdd(e, IF RLt(x, R0) THEN R0 ELSE RAdd(R1, ax))) ELSE e)
    [] t.f = "log" /\ k = 0 -> RAdd(RAbs(RLog(x)), R0)
    [] OTHER -> R0
Derivative(t) ==
  [j \in DOMAIN t.x |-> LET v == Force(Deriv(F(t), t.k, t.x[j])) IN
     RUndefined(v) \/ ~Finite(v) \/ Near(t.y[j], v, RAdd(RMul(Tol(t), RAdd(RAbs(v), Scale(t, t.k, t.x[j]))), RDyadic(1, -1000)))]
TaylorOK(t) ==
  [j \in DOMAIN t.x |-> LET J == Force(Jet(F(t), t.x[j], t.k + t.n)) IN
     Len(t.y[j]) = t.n + 1 /\ \A i \in 0..t.n :
        LET v == RMul(RDiv(RFact(t.k + i), RFact(i)), J[t.k + i + 1]) IN
        ~Finite(v) \/ Near(t.y[j][i + 1], v, RAdd(RMul(Tol(t), RAdd(RAbs(v), RDiv(Scale(t, t.k + i, t.x[j]), RFact(i)))), RDyadic(1, -1000)))]
RangeClauses(t) ==
  [j \in DOMAIN t.a |->
     LET r == Force(RangeOf(F(t), t.k, t.a[j], t.b[j]))
         w == RMul(Tol(t), RAdd(Max2(RAbs(r[1]), RAbs(r[2])), RAdd(Scale(t, t.k, t.a[j]), Scale(t, t.k, t.b[j]))))
         jump == t.f = "abs" /\ t.k = 1
     IN IF ~Defined(F(t), t.a[j], t.b[j]) THEN TRUE ELSE Near(t.lo[j], r[1], w) /\ Near(t.hi[j], r[2], w)]
MonoClauses(t) ==
  [j \in DOMAIN t.a |->
     LET r == Force(RangeOf(F(t), t.k, t.a[j], t.b[j]))
         w == RMul(RDyadic(1, -33), Max2(RAbs(r[1]), RAbs(r[2])))
     IN ~Defined(F(t), t.a[j], t.b[j]) \/ ((t.inc[j] => MonotoneUp(F(t), t.k, t.a[j], t.b[j], w)) /\ (t.dec[j] => MonotoneDown(F(t), t.k, t.a[j], t.b[j], w)))]
\* The listed extrema are the critical points.
SameList(xs, ys) == Len(xs) = Len(ys) /\ \A j \in DOMAIN xs : Near(xs[j], ys[j], RDyadic(1, -30))
EvenOK(t) == t.f \in {"softplus", "sigmoid", "swish", "abs"} =>
  \A q \in 1..20 : LET x == RDyadic(q * q + 3, -4) IN Near(Deriv(F(t), t.k, x), Deriv(F(t), t.k, RNeg(x)), RMul(RDyadic(1, -60), RExp(RNeg(x))))
DataClauses(t) ==
  LET cr == Critical(F(t), t.k)
      mins == SelectSeq(cr, LAMBDA q : ~q.max)
      maxs == SelectSeq(cr, LAMBDA q : q.max)
      lo == IF t.f \in {"log", "pow"} THEN RDyadic(1, -10) ELSE RInt(-60)
  IN << <<"local minima", SameList(t.minima, [j \in DOMAIN mins |-> mins[j].x])>>,
        <<"local maxima", SameList(t.maxima, [j \in DOMAIN maxs |-> maxs[j].x])>>,
        <<"increasing", t.inc => (cr = <<>> /\ MonotoneUp(F(t), t.k, lo, RInt(60), R0))>>,
        <<"decreasing", t.dec => (cr = <<>> /\ MonotoneDown(F(t), t.k, lo, RInt(60), R0))>>,
        <<"even", t.even => t.f \notin {"exp", "log"} /\ EvenOK(t)>> >>
AllTrue(s) == \A j \in DOMAIN s : s[j]
Facts(t) ==
  IF t.status = "notimpl" THEN << <<"supported order refused", ~Supported(t)>> >>
  ELSE IF t.status # "ok" THEN << <<"raised", FALSE>> >>
  ELSE IF t.f \notin Names THEN << <<"unknown function accepted", FALSE>> >>
  ELSE IF t.k > MaxOrder - 1 /\ t.f \in {"sigmoid", "softplus", "swish"} THEN << <<"unverified order accepted", FALSE>> >>
  ELSE CASE t.kind = "deriv" -> << <<"derivative", AllTrue(Derivative(t))>> >>
         [] t.kind = "taylor" -> << <<"Taylor coefficient", AllTrue(TaylorOK(t))>> >>
         [] t.kind = "range" -> << <<"range", AllTrue(RangeClauses(t))>> >>
         [] t.kind = "mono" -> << <<"monotonicity", AllTrue(MonoClauses(t))>> >>
         [] t.kind = "data" -> DataClauses(t)

-----------------------------------------------------------------------------
(* Enclosures.  t.e is a sequence of entries [x0, a, b, c], c a sequence of *)
(* coefficients <<lo, hi>>.                                                *)
HighestDegree(f) == CASE f = "abs" -> 1 [] f = "sigmoid" -> 4 [] f = "softplus" -> 5 [] f = "swish" -> 4 [] OTHER -> 1000
Fractions == <<R0, R1, RDyadic(1, -1), RDyadic(1, -2), RDyadic(3, -2), RDyadic(1, -4), RDyadic(15, -4), RDyadic(5, -3), RDyadic(3, -3), RDyadic(1, -10), RDyadic(1023, -10), RDyadic(11, -5), RDyadic(23, -5)>>
PointsOf(t, e) ==
  LET base == {RAdd(e.a, RMul(Fractions[q], RSub(e.b, e.a))) : q \in 1..(IF Samples < Len(Fractions) THEN Samples ELSE Len(Fractions))}
              \cup {RAdd(e.x0, RMul(RDyadic(s, -3), RSub(e.b, e.x0))) : s \in {0, 1, 5}} \cup {RAdd(e.x0, RMul(RDyadic(s, -3), RSub(e.a, e.x0))) : s \in {1, 5}}
      more == {R0, RDyadic(1, -30), RDyadic(-1, -30), RNeg(e.x0)}
                \cup (IF Samples > 13 THEN {RAdd(e.a, RMul(RRat(q, Samples), RSub(e.b, e.a))) : q \in 1..Samples} ELSE {})
      crit == IF t.f \in {"sigmoid", "softplus", "swish"} THEN {Critical(F(t), j)[i].x : <<j, i>> \in {<<j, i>> \in (0..3) \X (1..4) : i \in DOMAIN Critical(F(t), j)}} ELSE {}
  IN {x \in base \cup more \cup crit : ~RLt(x, e.a) /\ ~RLt(e.b, x)}
EvenCase(t) == t.k = 2 /\ t.f = "softplus"
TermI(co, d, i) == ScaleI(RPowI(d, i), co)
NotDefinite(co) == RUndefined(co[1]) \/ RUndefined(co[2])
HasNaN(e) == \E i \in DOMAIN e.c : NotDefinite(e.c[i])
ValueIn(t, e, cap, x) ==
  LET v == Force(ValueAt(F(t), x))
      d == Force(RSub(x, e.x0))
      r == Force(SumI([i \in DOMAIN e.c |-> TermI(e.c[i], d, i - 1)]))
      m == Force(RSum([i \in DOMAIN e.c |-> RMul(MagI(e.c[i]), RPowI(RAbs(d), i - 1))]))
      \* the value of order 0 is computed with an error relative to these
      s == RAdd(m, RAdd(RAbs(v), RAdd(Scale(t, 0, x), Scale(t, 0, e.x0))))
      \* The last coefficient is a quotient by (end - x0)^k: its roundoff is amplified at points that are farther away.
      near(y) == LET w == RAbs(RSub(y, e.x0)) IN IF IsZero(w) THEN R0 ELSE RDiv(R1, RMax(RPowI(w, t.k), RDyadic(1, -40)))
      amp == RMul(RMax(RMax(near(e.a), near(e.b)), IF EvenCase(t) THEN near(RNeg(e.x0)) ELSE R0), RPowI(RAbs(d), t.k))
      tol == RAdd(cap, RAdd(RMul(Tol(t), RAdd(Tiny, s)), RMul(RDyadic(1, IF t.f32 THEN -19 ELSE -46), RMul(amp, s))))
  IN \/ ~RFinite(v)
     \/ /\ RUndefined(r[1]) \/ ~Exceeds(r[1], v, tol)
        /\ RUndefined(r[2]) \/ ~Exceeds(v, r[2], tol)
\* A coefficient that is not a number is only acceptable where the function is not defined everywhere.
\* The code caps the divisor of the last coefficient at 1e-12, so that where the distance from x0 to an end of the
\* region is tiny (but not zero) the enclosure is off by up to the Taylor remainder at that end.  This is a known
\* finding; it is excluded here but for the cases that exhibit it, which are marked.
CapError(t, e) ==
  IF t.mark THEN R0
  ELSE LET J == Force(Jet(F(t), e.x0, t.k))
           at(y) == LET d == RSub(y, e.x0) IN
                    IF IsZero(d) \/ RLt(RDyadic(1, -39), RPowI(RAbs(d), t.k)) THEN R0 ELSE RAbs(RSub(ValueAt(F(t), y), TaylorAt(J, t.k + 1, d)))
           v == RAdd(at(e.a), at(e.b))
       IN IF RFinite(v) THEN v ELSE R0
EntryValid(t, e) ==
  /\ Defined(F(t), e.a, e.b) => ~HasNaN(e)
  /\ Len(e.c) = t.k + 1
  /\ LET cap == Force(CapError(t, e)) IN \A x \in PointsOf(t, e) : ValueIn(t, e, cap, x)
Valid(t) ==
  IF t.status = "notimpl" THEN << <<"supported degree refused", t.k > HighestDegree(t.f)>> >>
  ELSE IF t.status # "ok" THEN << <<"raised", FALSE>> >>
  ELSE << <<"value outside", \A j \in DOMAIN t.e : EntryValid(t, t.e[j])>> >>

(* Tightness. *)
\* The derivative of order k is certainly monotone over the region (where its turning points are irrational, with room to spare).
ClearlyMonotone(t, e) == Inside(F(t), t.k, e.a, e.b, IF t.f = "pow" THEN R0 ELSE RDyadic(1, -20)) = <<>>
Pole(t, e) == t.f \in {"abs"} /\ ~RLt(RDyadic(1, -20), RAbs(e.x0))
Sharp(t, e) ==
  LET J == Force(Jet(F(t), e.x0, t.k))
      R(x) == Force(Ratio(F(t), J, t.k, e.x0, x))
      \* roundoff of the quotient at x
      W(x) == LET d == Force(RAbs(RSub(x, e.x0))) IN
              IF IsZero(d) THEN R0
              ELSE RDiv(RMul(RDyadic(1, IF t.f32 THEN -19 ELSE -44), RAdd(RAdd(RAbs(ValueAt(F(t), x)), RAdd(Scale(t, 0, x), Scale(t, 0, e.x0))), TaylorMag(J, t.k + 1, d))), RMax(RPowI(d, t.k), RDyadic(1, -38)))
      last == e.c[t.k + 1]
      ra == R(e.a)
      rb == R(e.b)
      top == IF RLt(RNeg(e.x0), e.a) THEN e.a ELSE IF RLt(e.b, RNeg(e.x0)) THEN e.b ELSE RNeg(e.x0)
      want == IF EvenCase(t) /\ ~ClearlyMonotone(t, e) THEN <<RMin(ra, rb), R(top)>> ELSE <<RMin(ra, rb), RMax(ra, rb)>>
      tol == RAdd(RMul(Tol(t), RAdd(MagI(want), RDiv(Scale(t, t.k, e.x0), RFact(t.k)))), RAdd(RAdd(W(e.a), W(e.b)), IF EvenCase(t) THEN W(top) ELSE R0))
  IN Near(last[1], want[1], tol) /\ Near(last[2], want[2], tol)
\* The width of the region allows the quotient to be computed at all.
Wide(t, e) == LET ok(x) == IsZero(RSub(x, e.x0)) \/ RLt(RDyadic(1, -30), RPowI(RAbs(RSub(x, e.x0)), t.k)) IN ok(e.a) /\ ok(e.b)
AtLeastDerivative(t, e) ==
  LET r == Force(RangeOf(F(t), t.k, e.a, e.b))
      J == Force(Jet(F(t), e.x0, t.k))
      last == e.c[t.k + 1]
      d == RMax(RSub(e.b, e.x0), RSub(e.x0, e.a))
      even == RMul(RInt(2), RAbs(e.x0))    \* softplus of degree two: the quotient at -x0
      near0 == RMin(IF IsZero(RSub(e.b, e.x0)) THEN d ELSE RSub(e.b, e.x0), IF IsZero(RSub(e.x0, e.a)) THEN d ELSE RSub(e.x0, e.a))
      near == IF EvenCase(t) /\ ~IsZero(even) THEN RMin(near0, even) ELSE near0
      w == IF IsZero(d) THEN R0 ELSE RDiv(RMul(RDyadic(1, IF t.f32 THEN -19 ELSE -44), RAdd(RAdd(RAbs(ValueAt(F(t), e.a)), RAdd(Scale(t, 0, e.a), Scale(t, 0, e.x0))), RAdd(RAbs(ValueAt(F(t), e.b)), TaylorMag(J, t.k + 1, d)))), RPowI(near, t.k))
      tol == RAdd(RMul(Tol(t), RAdd(RMax(RAbs(r[1]), RAbs(r[2])), Scale(t, t.k, e.x0))), RMul(RFact(t.k), w))
  IN ~Exceeds(r[1], RMul(RFact(t.k), last[1]), tol) /\ ~Exceeds(RMul(RFact(t.k), last[2]), r[2], tol)
LowerExact(t, e) ==
  LET J == Force(Jet(F(t), e.x0, t.k)) IN
  \A i \in 1..t.k : LET tol == RMul(Tol(t), RAdd(RAbs(J[i]), RDiv(Scale(t, i - 1, e.x0), RFact(i - 1)))) IN
     ~RFinite(J[i]) \/ (e.c[i][1] = e.c[i][2] /\ Near(e.c[i][1], J[i], RAdd(tol, RDyadic(1, -1000))))
Tight(t) ==
  IF t.status # "ok" THEN << <<"(refused)", TRUE>> >>
  ELSE LET D == SelectSeq(t.e, LAMBDA e : Defined(F(t), e.a, e.b) /\ Len(e.c) = t.k + 1)
           S == SelectSeq(D, LAMBDA e : Wide(t, e) /\ ~Pole(t, e))
       IN << <<"lower coefficient", \A j \in DOMAIN D : LowerExact(t, D[j])>>,
             <<"not sharp", \A j \in DOMAIN S : (ClearlyMonotone(t, S[j]) \/ EvenCase(t)) => Sharp(t, S[j])>>,
             <<"looser than the derivative", \A j \in DOMAIN S : AtLeastDerivative(t, S[j])>> >>

-----------------------------------------------------------------------------
(* C10: two computations of the same thing.  t.x and t.y are sequences of  *)
(* arrays (a number each element); t.m gives magnitudes for roundoff.      *)
Equal(t) ==
  IF t.status # "ok" THEN << <<"raised", FALSE>> >>
  ELSE << <<"shape", t.sx = t.sy>>,
          <<"values differ", t.sx = t.sy => \A j \in DOMAIN t.x : Same(t.x[j], t.y[j], RMul(Tol(t), RAdd(t.m, RMax(RAbs(t.x[j]), RAbs(t.y[j])))))>> >>

Clauses(t) == CASE Prop = "C07" -> Facts(t) [] Prop = "C08" -> Valid(t) [] Prop = "C09" -> Tight(t) [] Prop = "C10" -> Equal(t)
Next == l = 0 /\ Judge(Clauses(Cases[c]))
=============================================================================
