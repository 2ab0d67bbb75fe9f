---------------------------- MODULE MC_Bounding -----------------------------
(***************************************************************************)
(* The algorithm that bounds a program, as a state machine: one step       *)
(* appends one operation to the program and computes an enclosure for it   *)
(* from those of its operands, three times side by side:                    *)
(*   e  trust regions computed from the enclosures,                         *)
(*   p  trust regions propagated through the program (t),                   *)
(*   q  like e, over a smaller region.                                      *)
(* An enclosure is a sequence of intervals, the coefficients of 1, z, ...,  *)
(* z^D, where z = x - x0 lies in the region.  The invariants are the design *)
(* of properties C11, C14 to C16 and C25: every program up to the bounds is *)
(* examined, and emitted for replay into taylor_bounds.                     *)
(***************************************************************************)
EXTENDS Poly, TraceIO, IOUtils
CONSTANTS MaxOps, Degrees, Design    \* Design: "meet", or "range" (see MC_Bounding_loose.cfg)
VARIABLES prog, env, D, reg
vars == <<prog, env, D, reg>>

Regions == {[x0 |-> 0, s |-> 1, t |-> 1], [x0 |-> 1, s |-> 3, t |-> 0], [x0 |-> -1, s |-> 1, t |-> 2], [x0 |-> 1, s |-> 0, t |-> 1]}
Z == <<RInt(0 - reg.s), RInt(reg.t)>>
ZSmall == <<RHalf(Z[1]), RHalf(Z[2])>>
X0 == RInt(reg.x0)
\* Displacements at which the meaning of the program is evaluated (in quarters).
Samples == [k \in 1..(4 * (reg.s + reg.t) + 1) |-> RDyadic(k - 1 - 4 * reg.s, -2)]
InSmall(z) == ~RLt(z, ZSmall[1]) /\ ~RLt(ZSmall[2], z)

-----------------------------------------------------------------------------
(* Enclosure arithmetic. *)
RECURSIVE EvalI(_, _)
EvalI(c, z) == LET S[k \in 0..Len(c)] == IF k = 0 THEN Pt(R0) ELSE AddI(S[k - 1], MulI(c[k], PowI(z, k - 1))) IN S[Len(c)]
Trunc(c, d, z) == IF Len(c) <= d + 1 THEN c ELSE Append(SubSeq(c, 1, d), EvalI(SubSeq(c, d + 1, Len(c)), z))
At(c, k) == IF k <= Len(c) THEN c[k] ELSE Pt(R0)
AddE(a, b) == [k \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> AddI(At(a, k), At(b, k))]
NegE(a) == [k \in DOMAIN a |-> NegI(a[k])]
MulE(a, b, d, z) == Trunc(Force(IntervalMul(a, b)), d, z)
PowE(a, e, d, z) == Trunc(Force([k \in 1..((Len(a) - 1) * e + 1) |-> ExactPowCoef(a, e, k)]), d, z)
ScaleE(c, a) == [k \in DOMAIN a |-> MulI(c, a[k])]

\* Elementwise functions: the last coefficient is the range of the ratio
\*   (f(v) - the terms of the Taylor polynomial below degree d) / (v - v0)^d,
\* which is increasing in v because the derivative of order d is.
Value(f, v) == IF f = "exp" THEN RExp(v) ELSE RAbs(v)
Coefficient(f, i, v) == IF f = "exp" THEN RDiv(RExp(v), RInt(Fact(i))) ELSE IF i = 0 THEN RAbs(v) ELSE IF RLt(v, R0) THEN RInt(-1) ELSE IF RLt(R0, v) THEN R1 ELSE R0
Ratio(f, d, v0, v) ==
  IF ~RLt(v, v0) /\ ~RLt(v0, v) THEN Coefficient(f, d, v0)
  ELSE LET dv == RSub(v, v0)
           P[i \in 0..d] == IF i = 0 THEN R0 ELSE RAdd(P[i - 1], RMul(Coefficient(f, i - 1, v0), RPowI(dv, i - 1)))
       IN RDiv(RSub(Value(f, v), P[d]), RPowI(dv, d))
RangeF(f, tr) == IF f = "exp" THEN IV(RExp(tr[1]), RExp(tr[2]))
                 ELSE IF RLt(tr[1], R0) /\ RLt(R0, tr[2]) THEN IV(R0, MagI(tr)) ELSE IV(RMin(RAbs(tr[1]), RAbs(tr[2])), MagI(tr))
ElemE(f, a, tr, d, z) ==
  IF d = 0 THEN <<RangeF(f, tr)>>
  ELSE LET v0 == a[1][1]
           c == [i \in 1..(d + 1) |-> IF i <= d THEN Pt(Coefficient(f, i - 1, v0)) ELSE IV(Ratio(f, d, v0, tr[1]), Ratio(f, d, v0, tr[2]))]
           dv == [a EXCEPT ![1] = Pt(R0)]
           C[i \in 0..(d + 1)] == IF i = 0 THEN <<Pt(R0)>> ELSE IF i = 1 THEN <<c[1]>> ELSE AddE(C[i - 1], ScaleE(c[i], PowE(dv, i - 1, d, z)))
       IN C[d + 1]

\* One operation, given the operands' enclosures and the trust region of the first.
Rule(nd, A, tr, d, z) ==
  CASE nd.op = "const" -> <<Pt(RInt(nd.d[1]))>>
    [] nd.op = "neg" -> NegE(A[1])
    [] nd.op = "add" -> AddE(A[1], A[2])
    [] nd.op = "sub" -> AddE(A[1], NegE(A[2]))
    [] nd.op = "mul" -> MulE(A[1], A[2], d, z)
    [] nd.op = "ipow" -> PowE(A[1], nd.k, d, z)
    [] OTHER -> ElemE(nd.op, A[1], tr, d, z)
Meet(x, y) == IV(RMax(x[1], y[1]), RMin(x[2], y[2]))
Meaning(nd, v) ==
  CASE nd.op = "const" -> RInt(nd.d[1])
    [] nd.op = "neg" -> RNeg(v[1])
    [] nd.op = "add" -> RAdd(v[1], v[2])
    [] nd.op = "sub" -> RSub(v[1], v[2])
    [] nd.op = "mul" -> RMul(v[1], v[2])
    [] nd.op = "ipow" -> RPowI(v[1], nd.k)
    [] OTHER -> Value(nd.op, v[1])
DegreeOf0(nd, g) ==
  CASE nd.op = "const" -> 0
    [] nd.op = "neg" -> g[1]
    [] nd.op \in {"add", "sub"} -> IF g[1] > g[2] THEN g[1] ELSE g[2]
    [] nd.op = "mul" -> g[1] + g[2]
    [] nd.op = "ipow" -> g[1] * nd.k
    [] OTHER -> IF g[1] = 0 THEN 0 ELSE 100
Dependent0(k) == env[k].g > 0

Start == LET id(z) == IF D = 0 THEN <<AddI(Pt(X0), z)>> ELSE <<Pt(X0), Pt(R1)>> IN
  [e |-> id(Z), p |-> id(Z), q |-> id(ZSmall), t |-> AddI(Pt(X0), Z), v |-> [k \in DOMAIN Samples |-> RAdd(X0, Samples[k])], g |-> 1]
Apply(nd) ==
  LET A(which(_)) == [j \in DOMAIN nd.a |-> which(env[nd.a[j]])]
      arg == env[IF nd.a = <<>> THEN 1 ELSE nd.a[1]]
      p2 == Force(Rule(nd, A(LAMBDA r : r.p), arg.t, D, Z))
      t0 == Force(Rule(nd, A(LAMBDA r : <<r.t>>), arg.t, 0, Z))
      \* Without the intersection, propagation could loosen the bounds.
      tp == IF Design = "meet" THEN Meet(t0[1], EvalI(p2, Z)) ELSE t0[1]
  IN [e |-> Force(Rule(nd, A(LAMBDA r : r.e), IF nd.op \in {"exp", "abs"} THEN EvalI(arg.e, Z) ELSE Pt(R0), D, Z)),
      p |-> p2,
      q |-> Force(Rule(nd, A(LAMBDA r : r.q), IF nd.op \in {"exp", "abs"} THEN EvalI(arg.q, ZSmall) ELSE Pt(R0), D, ZSmall)),
      t |-> Force(IF D = 0 THEN t0[1] ELSE HullI(tp, p2[1])),
      v |-> Force([k \in DOMAIN Samples |-> Meaning(nd, [j \in DOMAIN nd.a |-> env[nd.a[j]].v[k]])]),
      g |-> DegreeOf0(nd, [j \in DOMAIN nd.a |-> env[nd.a[j]].g])]

-----------------------------------------------------------------------------
N == Len(prog)
Ops ==
  {[op |-> o, a |-> <<u>>] : o \in {"neg", "exp"} \cup (IF D <= 1 THEN {"abs"} ELSE {}), u \in 1..N}
  \cup {[op |-> "ipow", a |-> <<u>>, k |-> k] : u \in 1..N, k \in 2..3}
  \cup {[op |-> o, a |-> <<u, w>>] : o \in {"add", "mul"}, u \in 1..N, w \in 1..N}
  \cup {[op |-> "sub", a |-> <<u, w>>] : u \in 1..N, w \in 1..N}
\* Operands in order; nothing is applied to a constant alone; exp only where values stay moderate.
Wanted(nd) ==
  /\ nd.op \in {"add", "mul"} => nd.a[1] <= nd.a[2]
  /\ \E j \in DOMAIN nd.a : Dependent0(nd.a[j])
  /\ nd.op = "exp" => ~RLt(RInt(30), MagI(EvalI(env[nd.a[1]].e, Z)))
  /\ nd.a[1] = 2 => Len(nd.a) = 2
Init == /\ D \in Degrees /\ reg \in Regions
        /\ prog = << [op |-> "x", a |-> <<>>], [op |-> "const", a |-> <<>>, s |-> <<>>, d |-> <<-2>>] >>
        /\ env = <<Start, [e |-> <<Pt(RInt(-2))>>, p |-> <<Pt(RInt(-2))>>, q |-> <<Pt(RInt(-2))>>, t |-> Pt(RInt(-2)), v |-> [k \in DOMAIN Samples |-> RInt(-2)], g |-> 0]>>
Used == \A k \in 3..(N - 1) : \E j \in (k + 1)..N : \E i \in DOMAIN prog[j].a : prog[j].a[i] = k
Export == [n |-> -1, nodes |-> prog, D |-> D, x0 |-> reg.x0, a |-> reg.x0 - reg.s, b |-> reg.x0 + reg.t, prof |-> "model", deg |-> env[N].g, s |-> <<>>]
Emit == IF "CASES" \in DOMAIN IOEnv /\ Used THEN EmitJson(IOEnv.CASES, Export) ELSE TRUE
Grow == /\ N < 2 + MaxOps
        /\ \E nd \in Ops : /\ Wanted(nd)
                           /\ \E r \in {Apply(nd)} : env' = Append(env, r)
                           /\ prog' = Append(prog, nd)
        /\ UNCHANGED <<D, reg>>
Finish == N = 2 + MaxOps /\ Emit /\ UNCHANGED vars
Next == Grow \/ Finish

Last1 == env[N]
Inside(v, iv) == ~RLt(v, iv[1]) /\ ~RLt(iv[2], v)
Within(x, y) == ~RLt(x[1], y[1]) /\ ~RLt(y[2], x[2])        \* x is part of y
PtAt(z) == Pt(z)
\* The range of the enclosures at z.
Over(c, z) == EvalI(c, Pt(z))
SoundOff == \A k \in DOMAIN Samples : Inside(Last1.v[k], Over(Last1.e, Samples[k]))
SoundOn == \A k \in DOMAIN Samples : Inside(Last1.v[k], Over(Last1.p, Samples[k])) /\ Inside(Last1.v[k], Last1.t)
SoundSmall == \A k \in DOMAIN Samples : InSmall(Samples[k]) => Inside(Last1.v[k], Over(Last1.q, Samples[k]))
SameLength == Len(Last1.e) = Len(Last1.p) /\ Len(Last1.e) = Len(Last1.q) /\ Len(Last1.e) <= D + 1
\* Only the last coefficient may be an interval; the others do not depend on the region.
Form == \A k \in 1..(Len(Last1.e) - 1) : k <= D => ~RLt(Last1.e[k][1], Last1.e[k][2]) /\ Within(Last1.p[k], Last1.e[k]) /\ Within(Last1.q[k], Last1.e[k])
PropagationTightens == \A k \in DOMAIN Last1.e : Within(Last1.p[k], Last1.e[k])
ShrinkingTightens == \A k \in DOMAIN Last1.e : Within(Last1.q[k], Last1.e[k])
PolynomialsExact == (Last1.g <= D /\ D > 0) => \A k \in DOMAIN Last1.e : ~RLt(Last1.e[k][1], Last1.e[k][2])
=============================================================================
