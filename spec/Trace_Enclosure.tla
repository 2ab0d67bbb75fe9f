-------------------------- MODULE Trace_Enclosure ---------------------------
(* Checks recorded operations on Taylor enclosures: C04 (evaluation and    *)
(* truncation), C05 (arithmetic encloses), C06 (exact polynomial algebra). *)
EXTENDS Enclosure, TraceBase
CONSTANT Samples
RelTol == RDyadic(1, -36)
Tiny == RDyadic(1, -150)

Box(t) == [k \in DOMAIN t.tr.lo |-> <<t.tr.lo[k], t.tr.hi[k]>>]
N(t) == Size(t.sx)
Claims(r) == ~RUndefined(r[1]) /\ ~RUndefined(r[2])
\* v lies in the interval r; a bound that is not a number claims nothing, which is accepted where free.
In(v, r, tol, free) == IF Claims(r) THEN ~Exceeds(r[1], v, tol) /\ ~Exceeds(v, r[2], tol) ELSE free
Sub(x, r, tol) == In(x[1], r, tol, FALSE) /\ In(x[2], r, tol, FALSE)
WF(r) == \A k \in DOMAIN r : \A j \in DOMAIN r[k].lo : ~RLt(r[k].hi[j], r[k].lo[j])
SameCoef(x, y) == x.iv = y.iv /\ x.s = y.s /\ x.lo = y.lo /\ x.hi = y.hi
SameValueCoef(x, y) == x.lo = y.lo /\ x.hi = y.hi /\ x.s = y.s

-----------------------------------------------------------------------------
(* C04 *)
Truncate(t) ==
  LET so == BatchOf(t.a, t.sx)
      bx == Box(t)
  IN << <<"degree", Len(t.r) <= t.D + 1>>,
        <<"unchanged if within the degree", Len(t.a) <= t.D + 1 => Len(t.r) = Len(t.a) /\ \A k \in DOMAIN t.a : SameCoef(t.a[k], t.r[k])>>,
        <<"lower coefficients changed", \A k \in 1..t.D : k > Len(t.a) \/ (k <= Len(t.r) /\ SameCoef(t.a[k], t.r[k]))>>,
        <<"shape", ShapesOK(t.r, t.sx) /\ OutBatchOK(t.r, t.sx, Len(t.r)) /\ BatchOf(t.r, t.sx) = so>>,
        <<"lower above upper", WF(t.r)>>,
        <<"not contained", ShapesOK(t.r, t.sx) =>
           \A q \in 1..Samples :
             LET z == Force(BoxPoint(bx, q))
                 x == Force(EvalTo(t.a, t.sx, so, z))
                 y == Force(EvalTo(t.r, t.sx, so, z))
                 m == Force(MagnitudeTo(t.a, t.sx, so, z))
                 m2 == Force(MagnitudeTo(t.r, t.sx, so, z))
             IN \A b \in 1..Size(so) : Sub(x[b], y[b], RMul(RelTol, RAdd(Tiny, RAdd(m[b], m2[b]))))>> >>
\* Evaluation at the displacements between z.lo and z.hi.
Evaluate(t) ==
  LET so == BatchOf(t.a, t.sx)
      bx == [k \in DOMAIN t.z.lo |-> <<t.z.lo[k], t.z.hi[k]>>]
      mz == [k \in DOMAIN bx |-> MagI(bx[k])]
      m == Force(MagnitudeTo(t.a, t.sx, so, mz))
      ok == t.v.s = so
  IN << <<"shape", ok>>,
        <<"lower above upper", WF(<<t.v>>)>>,
        <<"value outside", ok => \A q \in 1..(IF t.z.iv THEN Samples ELSE 1) :
             LET x == Force(EvalTo(t.a, t.sx, so, BoxPoint(bx, q)))
             IN \A b \in 1..Size(so) : Sub(x[b], El(t.v, b), RMul(RelTol, RAdd(Tiny, m[b])))>> >>
\* Elementwise evaluation: coefficient i multiplies the i-th power, element by element.
EvaluateElementwise(t) ==
  LET RECURSIVE Sh(_) Sh(k) == IF k = 0 THEN t.z.s ELSE BroadcastShape(Sh(k - 1), t.a[k].s)
      so == IF Len(t.a) = 1 THEN t.a[1].s ELSE Sh(Len(t.a))
      ok == t.v.s = so
      zt == BTable(t.z.s, so)
      T == [k \in DOMAIN t.a |-> BTable(t.a[k].s, so)]
      Val(b, z) == SumI([k \in DOMAIN t.a |-> ScaleI(RPowI(z, k - 1), El(t.a[k], T[k][b]))])
      Mag(b, z) == RSum([k \in DOMAIN t.a |-> RMul(RPowI(z, k - 1), MagI(El(t.a[k], T[k][b])))])
  IN << <<"shape", ok>>,
        <<"value outside", ok => \A b \in 1..Size(so) : \A q \in 1..(IF t.z.iv THEN Samples ELSE 1) :
             LET iz == IF Len(t.a) = 1 THEN Pt(R0) ELSE El(t.z, zt[b])
                 w == Weight(q, b)
                 z == RAdd(iz[1], RMul(w, RSub(iz[2], iz[1])))
             IN Sub(Val(b, z), El(t.v, b), RMul(RelTol, RAdd(Tiny, Mag(b, MagI(iz)))))>> >>

-----------------------------------------------------------------------------
(* The operations. *)
TableOf(t, sa, sb) ==
  CASE t.op = "matmul" -> EinsumTable(t.la, t.lb, t.lo, sa, sb)
    [] OTHER -> MulTable(sa, sb)
Two(t) == t.op \in {"add", "subtract", "multiply", "divide", "matmul"}
ABatch(t) == BatchOf(t.a, t.sx)
BBatch(t) == BatchOf(t.b, t.sx)
OutShape(t) == IF t.op = "matmul" THEN TableOf(t, ABatch(t), BBatch(t)).s ELSE IF Two(t) THEN BroadcastShape(ABatch(t), BBatch(t)) ELSE ABatch(t)

\* Elementwise functions whose enclosure rules are composed.
\* For a polynomial with interval coefficients, u picks a member.
FunPoly(t, x, k, u) ==
  LET at(f) == IF f.s = <<>> THEN 1 ELSE k
      RECURSIVE H(_)
      H(j) == IF j > Len(t.fc) THEN R0
              ELSE RAdd(IF (u + j) % 2 = 0 THEN t.fc[j].lo[at(t.fc[j])] ELSE t.fc[j].hi[at(t.fc[j])], RMul(x, H(j + 1)))
  IN H(1)
\* Value of the operation when the operands have the values x and y (one per element).
OpValue(t, x, y, u) ==
  LET X == Tensor(ABatch(t), x)
      Y == Tensor(BBatch(t), y)
  IN CASE t.op = "add" -> Binary(X, Y, RAdd).d
       [] t.op = "subtract" -> Binary(X, Y, RSub).d
       [] t.op = "multiply" -> Binary(X, Y, RMul).d
       [] t.op = "divide" -> Binary(X, Y, RDiv).d
       [] t.op = "matmul" -> ApplyTable(TableOf(t, ABatch(t), BBatch(t)), x, y)
       [] t.op = "negative" -> [k \in DOMAIN x |-> RNeg(x[k])]
       [] t.op = "power" -> [k \in DOMAIN x |-> IF t.int THEN RPowI(x[k], t.p) ELSE RPow(x[k], t.pr)]
       [] t.op = "compose" -> [k \in DOMAIN x |->
             CASE t.fun = "exp" -> RExp(x[k])
               [] t.fun = "square" -> RSq(x[k])
               [] t.fun = "poly" -> FunPoly(t, RSub(x[k], t.a[1].lo[BPos(Unravel(k - 1, ABatch(t)), t.a[1].s)]), k, u)]
Partial(t) == t.op = "divide" \/ (t.op = "power" /\ (~t.int \/ t.p < 0))
\* Whether the denominators or bases stay away from zero even when they are bounded term by term.
Safe(t) == LET E == IF t.op = "divide" THEN t.b ELSE t.a
               r == Force(LooseRangeTo(E, t.sx, BatchOf(E, t.sx), Box(t)))
           IN \A k \in DOMAIN r : RLt(RDyadic(1, -3), r[k][1]) \/ ((t.op = "divide" \/ t.int) /\ RLt(r[k][2], RDyadic(-1, -3)))
\* Size of the numbers from which the value is computed: they may cancel.
OpMagnitude(t, x, y) ==
  CASE t.op \in {"add", "subtract"} -> Binary(Tensor(ABatch(t), x), Tensor(BBatch(t), y), RAdd).d
    [] t.op \in {"multiply", "matmul"} -> OpValue(t, x, y, 0)
    [] t.op = "power" /\ ~Partial(t) -> [k \in DOMAIN x |-> RPowI(x[k], t.p)]
    [] OTHER -> x
\* Members of the two ranges: all combinations of their ends first.
Pairs == << <<1, 1>>, <<2, 2>>, <<1, 2>>, <<2, 1>>, <<3, 4>>, <<6, 7>> >>
Arithmetic(t) ==
  LET so == OutShape(t)
      sa == ABatch(t)
      sb == BBatch(t)
      bx == Box(t)
      shape == ShapesOK(t.r, t.sx) /\ OutBatchOK(t.r, t.sx, Len(t.r)) /\ Broadcastable(BatchOf(t.r, t.sx), so) /\ BroadcastShape(BatchOf(t.r, t.sx), so) = so
      free == Partial(t) /\ ~Safe(t)
      InBand(q, u) ==
         LET z == Force(BoxPoint(bx, q))
             ra == Force(EvalTo(t.a, t.sx, sa, z))
             rb == Force(EvalTo(t.b, t.sx, sb, z))
             r == Force(EvalTo(t.r, t.sx, so, z))
             m == Force(MagnitudeTo(t.r, t.sx, so, z))
             v == Force(OpValue(t, PickFrom(ra, Pairs[u][1]), PickFrom(rb, Pairs[u][2]), u))
             w == IF t.op = "divide" THEN v ELSE Force(OpMagnitude(t, MagnitudeTo(t.a, t.sx, sa, z), MagnitudeTo(t.b, t.sx, sb, z)))
         IN \A k \in DOMAIN v : RUndefined(v[k]) \/ In(v[k], r[k], RMul(IF Partial(t) THEN RDyadic(1, -28) ELSE RelTol, RAdd(Tiny, RAdd(m[k], RAdd(RAbs(w[k]), RAbs(v[k]))))), free)
  IN << <<"degree", Len(t.r) <= t.D + 1>>,
        <<"shape", shape>>,
        <<"lower above upper", WF(t.r)>>,
        <<"value outside", shape => \A q \in 1..Samples : \A u \in DOMAIN Pairs : InBand(q, u)>> >>

-----------------------------------------------------------------------------
(* C06 *)
Plain(E) == \A k \in DOMAIN E : ~E[k].iv
DegA(t) == Len(t.a) - 1
DegB(t) == Len(t.b) - 1
\* The degree of the exact result.
ExactDegree(t) ==
  CASE t.op \in {"add", "subtract"} -> SeqMax2(DegA(t), DegB(t))
    [] t.op \in {"multiply", "matmul"} -> DegA(t) + DegB(t)
    [] t.op = "negative" -> DegA(t)
    [] t.op = "power" -> DegA(t) * t.p
    [] t.op = "compose" -> DegA(t) * (Len(t.fc) - 1)
ExactPoly(t, b, so, cap, Abs(_)) ==
  LET n == N(t)
      pos(s) == BPos(Unravel(b - 1, so), s)
      A == Abs(MPOf(t.a, t.sx, so, b))
      B == Abs(MPOf(t.b, t.sx, so, b))
      A0 == [m \in DOMAIN A \ {ZeroExp(n)} |-> A[m]]
  IN CASE t.op = "add" -> MPAdd(A, B)
       [] t.op = "subtract" -> MPAdd(A, Abs(MPNeg(B)))
       [] t.op = "multiply" -> MPMul(A, B, cap)
       [] t.op = "negative" -> Abs(MPNeg(A))
       [] t.op = "power" -> MPPow(A, t.p, cap, n)
       [] t.op = "compose" -> LET RECURSIVE S(_)
                                  S(k) == IF k > Len(t.fc) THEN MPZero
                                          ELSE MPAdd(MPMul(Abs(MPConst(n, t.fc[k].lo[IF t.fc[k].s = <<>> THEN 1 ELSE pos(t.fc[k].s)])), MPPow(A0, k - 1, cap, n), cap), S(k + 1))
                              IN S(1)
       [] t.op = "matmul" -> LET tab == TableOf(t, ABatch(t), BBatch(t)).t[b]
                                 RECURSIVE S(_)
                                 S(k) == IF k > Len(tab) THEN MPZero
                                         ELSE MPAdd(MPMul(Abs(MPOf(t.a, t.sx, ABatch(t), tab[k][1])), Abs(MPOf(t.b, t.sx, BBatch(t), tab[k][2])), cap), S(k + 1))
                             IN S(1)
AbsE(E) == [k \in DOMAIN E |-> [E[k] EXCEPT !.lo = [j \in DOMAIN @ |-> RAbs(@[j])], !.hi = [j \in DOMAIN @ |-> RAbs(@[j])]]]
Magnitudes(t) == [t EXCEPT !.a = AbsE(@), !.b = AbsE(@), !.fc = AbsE(@)]
Exactness(t) ==
  LET so == OutShape(t)
      ed == ExactDegree(t)
      whole == ed <= t.D                        \* nothing is truncated
      top == IF whole THEN ed ELSE t.D - 1      \* degrees that must be exact
      n == N(t)
      shape == ShapesOK(t.r, t.sx) /\ OutBatchOK(t.r, t.sx, Len(t.r)) /\ Broadcastable(BatchOf(t.r, t.sx), so) /\ BroadcastShape(BatchOf(t.r, t.sx), so) = so
      low == SubSeq(t.r, 1, IF Len(t.r) < top + 1 THEN Len(t.r) ELSE top + 1)
  IN << <<"shape", shape>>,
        <<"number of coefficients", Len(t.r) >= top + 1 /\ (whole => Len(t.r) = ed + 1)>>,
        <<"interval coefficient", Plain(low)>>,
        <<"coefficient", shape => \A b \in 1..Size(so) :
            LET spec == Force(ExactPoly(t, b, so, top, LAMBDA p : p))
                mag == Force(ExactPoly(Magnitudes(t), b, so, top, MPAbs))
                code == Force(MPOf(low, t.sx, so, b))
            IN \A m \in {m \in DOMAIN spec \cup DOMAIN code : Deg(m) <= top} :
                 ~FarApart(MPAt(spec, m), MPAt(code, m), RMul(RelTol, RAdd(Tiny, MPAt(mag, m))))>> >>

Clauses(t) ==
  IF t.status # "ok" THEN << <<"raised", FALSE>> >>
  ELSE CASE Prop = "C04" -> (IF t.op = "truncate" THEN Truncate(t) ELSE IF t.op = "eval" THEN Evaluate(t) ELSE EvaluateElementwise(t))
         [] Prop = "C05" -> Arithmetic(t)
         [] Prop = "C06" -> Exactness(t)
Next == l = 0 /\ Judge(Clauses(Cases[c]))
=============================================================================
