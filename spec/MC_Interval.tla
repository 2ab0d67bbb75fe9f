---------------------------- MODULE MC_Interval ----------------------------
(* Every combination of two scalar operands from a grid: the smallest      *)
(* enclosing intervals of IntervalArith are sound and attained, and the    *)
(* rules the implementation is built from (end-point products; products of *)
(* positive and negative parts; even and odd powers) enclose them.  Every  *)
(* combination is written out for replay, as are all pairs of vectors of   *)
(* length two over a smaller grid.                                         *)
EXTENDS IntervalArith, TraceIO, IOUtils, FiniteSets
CONSTANTS MaxInt, Exps

Grid == (-MaxInt)..MaxInt
Ivs == {p \in Grid \X Grid : p[1] <= p[2]}
SmallIvs == {<<-1, 1>>, <<0, 1>>, <<-2, 0>>, <<1, 2>>, <<-2, -1>>, <<-1, 2>>, <<0, 0>>}
SmallPts == {-1, 0, 2}
I(p) == <<RInt(p[1]), RInt(p[2])>>
Halves(p) == {RDyadic(h, -1) : h \in (2 * p[1])..(2 * p[2])}

VARIABLES a, b, k, stage
vars == <<a, b, k, stage>>
Init == a \in Ivs /\ b \in Ivs /\ k = 0 /\ stage = "pair"

MulSound == \A x \in Halves(a), y \in Halves(b) : LET h == MulI(I(a), I(b)) IN ~RLt(RMul(x, y), h[1]) /\ ~RLt(h[2], RMul(x, y))
MulTight == LET h == MulI(I(a), I(b)) IN \A e \in {h[1], h[2]} : \E x \in Halves(a), y \in Halves(b) : RMul(x, y) = e
AddTight == LET h == AddI(I(a), I(b))
                g == SubI(I(a), I(b)) IN
            /\ \A x \in Halves(a), y \in Halves(b) : ~RLt(RAdd(x, y), h[1]) /\ ~RLt(h[2], RAdd(x, y)) /\ ~RLt(RSub(x, y), g[1]) /\ ~RLt(g[2], RSub(x, y))
            /\ \A e \in 1..2 : \E x \in Halves(a), y \in Halves(b) : RAdd(x, y) = h[e]
            /\ \A e \in 1..2 : \E x \in Halves(a), y \in Halves(b) : RSub(x, y) = g[e]
PowOK == \A e \in Exps : LET h == PowI(I(a), e) IN
            /\ \A x \in Halves(a) : ~RLt(RPowI(x, e), h[1]) /\ ~RLt(h[2], RPowI(x, e))
            /\ \A j \in 1..2 : \E x \in Halves(a) : RPowI(x, e) = h[j]
\* The rule for general bilinear operations, on one product.
Pos(x) == RMax(R0, x)
Neg(x) == RMin(R0, x)
PosNeg(x, y) ==
  IV(RSum(<<RMul(Pos(x[1]), Pos(y[1])), RMul(Pos(x[2]), Neg(y[1])), RMul(Neg(x[1]), Pos(y[2])), RMul(Neg(x[2]), Neg(y[2]))>>),
     RSum(<<RMul(Pos(x[2]), Pos(y[2])), RMul(Neg(x[2]), Pos(y[1])), RMul(Pos(x[1]), Neg(y[2])), RMul(Neg(x[1]), Neg(y[1]))>>))
PosNegSound == LET h == MulI(I(a), I(b))
                   r == PosNeg(I(a), I(b)) IN ~RLt(h[1], r[1]) /\ ~RLt(r[2], h[2]) /\ ~RLt(r[2], r[1])
PosNegExact == (a[1] = a[2] \/ b[1] = b[2]) => PosNeg(I(a), I(b)) = MulI(I(a), I(b))

Emit(r) == ("CASES" \notin DOMAIN IOEnv) \/ EmitJson(IOEnv.CASES, r)
Operand(iv, s) == [iv |-> iv, p |-> s]
Kinds == {<<TRUE, TRUE>>} \cup (IF a[1] = a[2] THEN {<<FALSE, TRUE>>} ELSE {}) \cup (IF b[1] = b[2] THEN {<<TRUE, FALSE>>} ELSE {})
           \cup (IF a[1] = a[2] /\ b[1] = b[2] THEN {<<FALSE, FALSE>>} ELSE {})
Scalars == /\ stage = "pair" /\ stage' = "done" /\ UNCHANGED <<a, b, k>>
           /\ \A op \in {"add", "subtract", "multiply"} : \A q \in Kinds :
                 Emit([op |-> op, s |-> <<>>, a |-> Operand(q[1], <<a>>), b |-> Operand(q[2], <<b>>), k |-> 0])
           /\ b = <<0, 0>> => \A e \in Exps : \A q \in Kinds :
                 /\ Emit([op |-> "power", s |-> <<>>, a |-> Operand(q[1], <<a>>), b |-> Operand(FALSE, <<b>>), k |-> e])
                 /\ Emit([op |-> "outer_power", s |-> <<>>, a |-> Operand(q[1], <<a>>), b |-> Operand(FALSE, <<b>>), k |-> e])
           /\ b = <<0, 0>> => Emit([op |-> "negative", s |-> <<>>, a |-> Operand(TRUE, <<a>>), b |-> Operand(FALSE, <<b>>), k |-> 0])
\* Vectors of length two: <<a, a2>> . <<b, b2>> and their outer products and powers.
Vectors == /\ stage = "pair" /\ stage' = "vector" /\ UNCHANGED <<a, b, k>>
           /\ a \in SmallIvs /\ b \in SmallIvs
           /\ \A a2 \in SmallIvs : \A b2 \in SmallIvs :
                /\ Emit([op |-> "dot", s |-> <<2>>, a |-> Operand(TRUE, <<a, a2>>), b |-> Operand(TRUE, <<b, b2>>), k |-> 0])
                /\ (b = b2 /\ a2 # a) => Emit([op |-> "outer_product", s |-> <<2>>, a |-> Operand(TRUE, <<a, a2>>), b |-> Operand(TRUE, <<b, a>>), k |-> 0])
           /\ \A a2 \in SmallIvs : \A x, y \in SmallPts :
                /\ Emit([op |-> "dot", s |-> <<2>>, a |-> Operand(TRUE, <<a, a2>>), b |-> Operand(FALSE, <<<<x, x>>, <<y, y>>>>), k |-> 0])
                /\ Emit([op |-> "dot", s |-> <<2>>, b |-> Operand(TRUE, <<a, a2>>), a |-> Operand(FALSE, <<<<x, x>>, <<y, y>>>>), k |-> 0])
           /\ \A e \in Exps : Emit([op |-> "outer_power", s |-> <<2>>, a |-> Operand(TRUE, <<a, b>>), b |-> Operand(FALSE, <<<<0, 0>>>>), k |-> e])
Next == Scalars \/ Vectors
=============================================================================
