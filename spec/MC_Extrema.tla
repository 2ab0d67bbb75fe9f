----------------------------- MODULE MC_Extrema -----------------------------
(***************************************************************************)
(* Proves, by exhaustive refinement of a cover of the real line, that the  *)
(* critical points of Elementwise.tla are all there are: a state is a cell *)
(* [a, b]; a cell is split until the next derivative certainly has no zero *)
(* in it, or it lies around a critical point at which the next derivative  *)
(* is certainly strictly monotone.  Cells <<1>> and <<-1>> are the tails.  *)
(***************************************************************************)
EXTENDS Elementwise, FiniteSets
CONSTANTS Depth
VARIABLES F, k, m, e,             \* function, order, the cell [m, m + 1] * 2^-e  (e = -5: width 32)
          seen                    \* <<>>, or what was found out about the cell
vars == <<F, k, m, e, seen>>
Functions == {"softplus", "swish"}
Init == F \in Functions /\ k \in 0..(MaxOrder - 1) /\ e = -5 /\ m \in {-2, -1, 0, 1} /\ seen = <<>>

Lo == RDyadic(m, -e)
Hi == RDyadic(m + 1, -e)
Infinite == m \in {-2, 1} /\ e = -5             \* the rest of the line, from 32 and to -32
SOver(lo, hi) == RBetween(Sigmoid(lo), Sigmoid(hi))
SoftplusFactor(j, s) == IF j <= 2 THEN R1 ELSE QAt(j - 1, s)
\* softplus^(j) = s * t * SoftplusFactor (j >= 2);  swish^(j) = s * t * SwishFactor (j >= 2), swish' = s * (1 + x * t).
SwishFactor(j, x, s, t) == IF j = 1 THEN RAdd(R1, RMul(x, t)) ELSE RAdd(RMul(RInt(j), IF j = 2 THEN R1 ELSE QAt(j - 1, s)), RMul(x, QAt(j, s)))
CellSign(lo, hi) ==
  LET s == TLCEval(SOver(lo, hi))
      t == TLCEval(RBetween(Sigmoid(RNeg(hi)), Sigmoid(RNeg(lo))))
      x == RBetween(lo, hi)
  IN Sgn(IF F = "softplus" THEN SoftplusFactor(k + 1, s) ELSE SwishFactor(k + 1, x, s, t))
\* In the tails s or t is between 0 and 2^-40, and the swish factor is divided by x (w = 1/x).
TailSign ==
  LET tiny == RBetween(R0, RDyadic(1, -40))
      right == m = 1
      s == IF right THEN RSub(R1, tiny) ELSE tiny
      t == IF right THEN tiny ELSE RSub(R1, tiny)
      w == IF right THEN RBetween(R0, RDyadic(1, -5)) ELSE RBetween(RDyadic(-1, -5), R0)
      n == IF k = 0 THEN (IF right THEN R1 ELSE RAdd(w, t))
           ELSE RAdd(RMul(w, RMul(RInt(k + 1), IF k = 1 THEN R1 ELSE QAt(k, s))), QAt(k + 1, s))
  IN IF F = "softplus" THEN Sgn(SoftplusFactor(k + 1, s)) ELSE (IF right \/ Sgn(n) = 0 THEN Sgn(n) ELSE 0 - Sgn(n))
Decided == IF Infinite THEN TRUE ELSE CellSign(Lo, Hi) # 0
\* Around a critical point.
Around == ~Infinite /\ e >= Depth
Table == IF F = "softplus" THEN SoftplusCritical[k] ELSE SwishCritical[k]
\* Sign of the derivative of order k + 1 between critical points, according to the table.
SignAt(x) == LET left == Cardinality({j \in DOMAIN Table : RLt(Table[j].x, x)})
             IN IF Table = <<>> THEN 1 ELSE IF left = 0 THEN (IF Table[1].max THEN 1 ELSE -1) ELSE (IF Table[left].max THEN -1 ELSE 1)
\* A decided cell has the sign that the table says and contains no critical point of the table.
Agrees == (Decided /\ ~Infinite) => /\ CellSign(Lo, Hi) = SignAt(RHalf(RAdd(Lo, Hi)))
                                   /\ \A j \in DOMAIN Table : RLt(Table[j].x, Lo) \/ RLt(Hi, Table[j].x)
TailAgrees == Infinite => TailSign # 0 /\ TailSign = SignAt(RInt(IF m = 1 THEN 32 ELSE -32))
Radius == RDyadic(1, 6 - e)
\* An undecided smallest cell is next to a critical point, where the following derivative does not vanish:
\* there is exactly one zero in the neighbouring cells, namely the one in the table.
Simple == (~Decided /\ Around) =>
  /\ \E j \in DOMAIN Table : RLt(RAbs(RSub(Table[j].x, Lo)), Radius)
  /\ LET a == RSub(Lo, Radius)
         b == RAdd(Hi, Radius)
     IN Sgn(Deriv([f |-> F, p |-> R1], k + 2, RBetween(a, b))) # 0
Alternates == \A j \in 1..(Len(Table) - 1) : Table[j].max # Table[j + 1].max
\* The two ways to compute derivatives agree.
CrossCheck == (~Infinite /\ e <= -2) =>
  LET x == Hi
      s == TLCEval(Sigmoid(x))
      t == TLCEval(Sigmoid(RNeg(x)))
      v == IF F = "softplus" THEN (IF k = 0 THEN s ELSE RMul(RMul(s, t), SoftplusFactor(k + 1, s)))
           ELSE (IF k = 0 THEN RMul(s, SwishFactor(1, x, s, t)) ELSE RMul(RMul(s, t), SwishFactor(k + 1, x, s, t)))
  IN ~FarApart(Deriv([f |-> F, p |-> R1], k + 1, x), v, RDyadic(1, -60))

Examine == seen = <<>> /\ UNCHANGED <<F, k, m, e>>
           /\ seen' = [decided |-> Decided, agrees |-> Agrees, tail |-> TailAgrees, simple |-> Simple, alternates |-> Alternates, cross |-> CrossCheck]
Split == seen # <<>> /\ ~seen.decided /\ ~Around /\ e' = e + 1 /\ m' \in {2 * m, 2 * m + 1} /\ seen' = <<>> /\ UNCHANGED <<F, k>>
Spec == Init /\ [][Examine \/ Split]_vars
Complete == seen # <<>> => seen.agrees /\ seen.tail /\ seen.simple /\ seen.alternates /\ seen.cross
=============================================================================
