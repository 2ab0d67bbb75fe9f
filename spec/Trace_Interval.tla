--------------------------- MODULE Trace_Interval ---------------------------
(* Checks recorded calls of the interval arithmetic (C01, C02, and the     *)
(* agreement of the back ends in C10).                                     *)
EXTENDS IntervalArith, TraceBase, FiniteSets
CONSTANT Samples

RelTol == RDyadic(1, -40)

\* The operation of a case, as a table or elementwise.
TableOf(t) ==
  CASE t.op = "multiply" -> MulTable(t.a.s, t.b.s)
    [] t.op = "einsum"   -> EinsumTable(t.la, t.lb, t.lo, t.a.s, t.b.s)
    [] t.op = "convolve" -> ConvolveTable(t.a.s[1], t.b.s[1])
IsTable(t) == t.op \in {"multiply", "einsum", "convolve"}

\* outer_power: the element at I1 \o ... \o Ik is the product of the elements B \o Ij (B: batch index).
OuterShape(s, k, b) == IF k = 0 THEN <<>> ELSE
  LET RECURSIVE Rep(_) Rep(n) == IF n = 0 THEN <<>> ELSE Last0(s, Len(s) - b) \o Rep(n - 1) IN First0(s, b) \o Rep(k)
OuterPositions(s, k, b, pos) ==   \* positions of the factors of output element pos
  LET ix == Unravel(pos - 1, OuterShape(s, k, b))
      m == Len(s) - b
  IN [j \in 1..k |-> 1 + Ravel(First0(ix, b) \o SubSeq(ix, b + (j - 1) * m + 1, b + j * m), s)]

OutShape(t) ==
  CASE t.op \in {"add", "subtract"} -> BroadcastShape(t.a.s, t.b.s)
    [] t.op \in {"negative", "power"} -> t.a.s
    [] t.op = "outer_power" -> OuterShape(t.a.s, t.k, t.batch)
    [] OTHER -> TableOf(t).s

RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN R1 ELSE RMul(Head(s), ProdSeq(Tail(s)))
\* Value of the operation at a point of the operands.
ValueAt(t, da, db) ==
  CASE t.op = "add" -> Binary(Tensor(t.a.s, da), Tensor(t.b.s, db), RAdd).d
    [] t.op = "subtract" -> Binary(Tensor(t.a.s, da), Tensor(t.b.s, db), RSub).d
    [] t.op = "negative" -> [k \in DOMAIN da |-> RNeg(da[k])]
    [] t.op = "power" -> [k \in DOMAIN da |-> RPowI(da[k], t.k)]
    [] t.op = "outer_power" -> [p \in 1..Size(OutShape(t)) |->
          LET f == OuterPositions(t.a.s, t.k, t.batch, p) IN ProdSeq([j \in DOMAIN f |-> da[f[j]]])]
    [] OTHER -> ApplyTable(TableOf(t), da, db)
\* Magnitude against which roundoff is measured.
Scale(t) ==
  CASE t.op \in {"add", "subtract"} -> Binary(Tensor(t.a.s, MagOf(t.a)), Tensor(t.b.s, MagOf(t.b)), RAdd).d
    [] t.op = "negative" -> MagOf(t.a)
    [] OTHER -> ValueAt(t, MagOf(t.a), MagOf(t.b))
Tol(t) == LET s == Scale(t) IN [k \in DOMAIN s |-> RMul(RelTol, RAdd(s[k], RDyadic(1, -200)))]

\* The smallest enclosing interval, where it is computable; <<>> elsewhere.
Elementwise2(t, Op(_, _)) ==
  LET s == BroadcastShape(t.a.s, t.b.s)
      ta == BTable(t.a.s, s)
      tb == BTable(t.b.s, s)
  IN [k \in 1..Size(s) |-> Op(El(t.a, ta[k]), El(t.b, tb[k]))]
Hull(t) ==
  CASE t.op = "add" -> Elementwise2(t, AddI)
    [] t.op = "subtract" -> Elementwise2(t, SubI)
    [] t.op = "negative" -> [k \in DOMAIN t.a.lo |-> NegI(El(t.a, k))]
    [] t.op = "power" -> [k \in DOMAIN t.a.lo |-> PowI(El(t.a, k), t.k)]
    [] t.op = "outer_power" ->
         [p \in 1..Size(OutShape(t)) |->
            LET f == OuterPositions(t.a.s, t.k, t.batch, p) IN
            IF t.k = 0 THEN Pt(R1)
            ELSE IF t.a.s = <<>> \/ t.k = 1 THEN PowI(El(t.a, 1 + 0 * p), t.k)
            ELSE IF t.k = 2 /\ f[1] # f[2] THEN MulI(El(t.a, f[1]), El(t.a, f[2]))
            ELSE IF t.k = 2 /\ Len(t.a.s) = 1 /\ t.batch = 0 THEN PowI(El(t.a, f[1]), 2)
            ELSE <<>>]
    [] OTHER ->
         LET tab == TableOf(t) IN
         [k \in DOMAIN tab.t |->
            LET T == tab.t[k] IN
            IF Len(T) = 1 THEN MulI(El(t.a, T[1][1]), El(t.b, T[1][2]))
            ELSE IF t.a.iv /\ t.b.iv THEN <<>>
            ELSE SumI([j \in DOMAIN T |-> MulI(El(t.a, T[j][1]), El(t.b, T[j][2]))])]
\* The one-term rule is only promised for products, not for bilinear operations whose two operands are intervals.
HullPromised(t) == t.op \notin {"einsum", "convolve"} \/ t.product \/ ~(t.a.iv /\ t.b.iv)
HullFixed(t) == LET hl == Hull(t) IN
  IF t.op = "outer_power" /\ t.k = 1 THEN [p \in DOMAIN hl |-> El(t.a, p)] ELSE hl

\* Whether the result must contain the exact interval: the operands vary independently, so that it is the set of all values.
Independent(t) ==
  IF ~IsTable(t) THEN TRUE
  ELSE LET tab == TableOf(t) IN
       \A k \in DOMAIN tab.t : LET T == tab.t[k] IN
          (t.a.iv => Cardinality({T[j][1] : j \in DOMAIN T}) = Len(T)) /\ (t.b.iv => Cardinality({T[j][2] : j \in DOMAIN T}) = Len(T))
\* The points at which the two operands are sampled: all combinations of corners first.
FirstIndex(q)  == CASE q = 3 -> 1 [] q = 4 -> 2 [] q = 5 -> 3 [] q = 6 -> 4 [] q = 7 -> 5 [] OTHER -> q
SecondIndex(q) == CASE q = 3 -> 2 [] q = 4 -> 1 [] q = 5 -> 4 [] q = 6 -> 3 [] q = 7 -> 4 [] OTHER -> IF q > 7 THEN q + 1 ELSE q

AnyInterval(t) == t.a.iv \/ t.b.iv
Inside(r, v, tol, n) == \A k \in 1..n : ~Exceeds(r.lo[k], v[k], tol[k]) /\ ~Exceeds(v[k], r.hi[k], tol[k]) /\ RFinite(r.lo[k]) /\ RFinite(r.hi[k])

Clauses(t) ==
  IF t.status # "ok" THEN << <<"raised", FALSE>> >>
  ELSE LET s == OutShape(t)
           n == Size(s)
           tol == Force(Tol(t))
           shape == t.r.s = s
       IN IF ~shape THEN << <<"shape", FALSE>> >>
          ELSE IF Prop = "C01" THEN
            << <<"lower above upper", \A k \in 1..n : ~RLt(t.r.hi[k], t.r.lo[k])>>,
               <<"value outside", \A q \in 1..Samples : Inside(t.r, ValueAt(t, PointOf(t.a, FirstIndex(q)), PointOf(t.b, SecondIndex(q))), tol, n)>>,
               <<"exact range outside", Independent(t) => LET hl == HullFixed(t) IN
                    \A k \in 1..n : hl[k] # <<>> => ~Exceeds(t.r.lo[k], hl[k][1], tol[k]) /\ ~Exceeds(hl[k][2], t.r.hi[k], tol[k])>> >>
          ELSE LET hl == HullFixed(t) IN
            << <<"interval from plain arrays", AnyInterval(t) \/ ~t.r.iv>>,
               <<"not exact", HullPromised(t) => \A k \in 1..n : hl[k] # <<>> => (~FarApart(hl[k][1], t.r.lo[k], tol[k]) /\ ~FarApart(hl[k][2], t.r.hi[k], tol[k]))>> >>
Next == l = 0 /\ Judge(Clauses(Cases[c]))
=============================================================================
