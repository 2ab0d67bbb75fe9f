----------------------------- MODULE Programs ------------------------------
(***************************************************************************)
(* Programs as autobound/jax/jaxpr_editor.py sees them (property C24):     *)
(* graphs (module GraphEditor) whose operations are labelled by everything *)
(* that makes two of them the same computation: the primitive, its         *)
(* parameters, and for a call the called program itself, with its          *)
(* literals and captured constants.  Operands L1, L2, ... are literals and *)
(* K1, K2, ... captured constants.  Called programs name their variables   *)
(* canonically, so that being equal up to renaming is equality.            *)
(*                                                                         *)
(* Kind of operation: [op, k, body], body = <<>> or <<program>>.           *)
(***************************************************************************)
EXTENDS GraphEditor, RealField

Literals == [L1 |-> RInt(2), L2 |-> RDyadic(-1, -1), L3 |-> RDyadic(3, -2), L4 |-> RInt(-1)]
Constants == [K1 |-> <<RInt(1), RDyadic(1, -1), RInt(-2)>>, K2 |-> <<RInt(1), RDyadic(1, -1), RInt(2)>>, K3 |-> <<RDyadic(3, -1), RInt(1), RInt(1)>>]
IsLiteral(v) == v \in DOMAIN Literals
IsConstant(v) == v \in DOMAIN Constants

\* A variable of the pattern stands for any variable, a literal for itself.
CanBind(pat, sub) == {<<u, v>> \in (VarsOf(pat) \X VarsOf(sub)) : IF IsLiteral(u) THEN u = v ELSE ~IsLiteral(v)}

\* The replacement, on the inputs and outputs of the pattern.
CopyKind == [op |-> "copy", k |-> 0, body |-> <<>>]
PosIn(v, s) == CHOOSE k \in DOMAIN s : s[k] = v
Aligned(rep, pat) ==
  LET own == OutsOf(rep.ops)
      first == [v \in RangeOf(rep.outs) \cap own |-> CHOOSE k \in DOMAIN rep.outs : rep.outs[k] = v /\ \A j \in 1..(k - 1) : rep.outs[j] # v]
      m == [v \in RangeOf(rep.ins) |-> pat.ins[PosIn(v, rep.ins)]] @@ [v \in DOMAIN first |-> pat.outs[first[v]]]
      rest == SelectSeq([k \in DOMAIN rep.outs |-> k], LAMBDA k : ~(rep.outs[k] \in own /\ first[rep.outs[k]] = k))
  IN SubsAll(rep.ops, m) \o [j \in DOMAIN rest |-> [d |-> CopyKind, i |-> <<Apply(m, rep.outs[rest[j]])>>, o |-> <<pat.outs[rest[j]]>>]]
EditedProgram(pat, rep, sub) ==
  [sub EXCEPT !.ops = Edited(pat.ops, Aligned(rep, pat), [ins |-> sub.ins, outs |-> sub.outs, ops |-> sub.ops], CanBind(pat.ops, sub.ops))]
Occurs(pat, rep, sub) == LET can == CanBind(pat.ops, sub.ops) r == Aligned(rep, pat) IN \E p \in DOMAIN sub.ops : CanRewrite(pat.ops, r, sub, can, p)

-----------------------------------------------------------------------------
(* Meaning: values are vectors (or scalars, as vectors of length one).     *)
At(u, k) == IF Len(u) = 1 THEN u[1] ELSE u[k]
Len2(u, v) == IF Len(u) >= Len(v) THEN Len(u) ELSE Len(v)
Reversed(u) == [k \in DOMAIN u |-> u[Len(u) + 1 - k]]
CumSum(u) == [k \in DOMAIN u |-> RSum(SubSeq(u, 1, k))]
Value1(kd, u) ==
  CASE kd.op = "copy" -> u
    [] kd.op = "rev" -> Reversed(u)
    [] kd.op \in {"sumto", "maxto"} ->
         \* Of a two by two matrix (by rows): each row filled with the reduction over axis k.
         LET line(i) == IF kd.k = 0 THEN <<u[i], u[i + 2]>> ELSE <<u[2 * i - 1], u[2 * i]>>
             s == [i \in 1..2 |-> IF kd.op = "sumto" THEN RSum(line(i)) ELSE RMax(line(i)[1], line(i)[2])]
         IN <<s[1], s[1], s[2], s[2]>>
    [] kd.op = "flip" -> IF kd.k = 0 THEN <<u[3], u[4], u[1], u[2]>> ELSE <<u[2], u[1], u[4], u[3]>>
    [] kd.op = "transpose" -> <<u[1], u[3], u[2], u[4]>>
    [] kd.op = "cumsum" -> IF kd.k = 0 THEN CumSum(u) ELSE Reversed(CumSum(Reversed(u)))
    [] OTHER -> [j \in DOMAIN u |-> CASE kd.op = "neg" -> RNeg(u[j])
                   [] kd.op = "abs" -> RAbs(u[j])
                   [] kd.op = "exp" -> RExp(u[j])
                   [] kd.op = "logistic" -> RDiv(R1, RAdd(R1, RExp(RNeg(u[j]))))
                   [] kd.op = "ipow" -> RPowI(u[j], kd.k)]
Value2(kd, u, v) ==
  [j \in 1..Len2(u, v) |-> LET a == At(u, j) b == At(v, j) IN
                           CASE kd.op = "add" -> RAdd(a, b)
                             [] kd.op = "sub" -> RSub(a, b)
                             [] kd.op = "mul" -> RMul(a, b)
                             [] kd.op = "max" -> RMax(a, b)
                             [] kd.op = "min" -> RMin(a, b)]
UnaryKinds == {"copy", "rev", "cumsum", "sumto", "maxto", "flip", "transpose", "neg", "abs", "exp", "logistic", "ipow"}
Operand(env, v) == IF IsLiteral(v) THEN <<Literals[v]>> ELSE IF IsConstant(v) THEN Constants[v] ELSE env[v]
RECURSIVE RunOps(_, _, _)
RunOps(ops, k, env) ==
  IF k > Len(ops) THEN env
  ELSE LET op == ops[k]
           args == [a \in DOMAIN op.i |-> Operand(env, op.i[a])]
           vals == IF op.d.op = "call"
                   THEN LET b == op.d.body[1]
                            benv == RunOps(b.ops, 1, [v \in RangeOf(b.ins) |-> args[PosIn(v, b.ins)]])
                        IN [a \in DOMAIN b.outs |-> Operand(benv, b.outs[a])]
                   ELSE IF op.d.op \in UnaryKinds THEN <<Value1(op.d, args[1])>> ELSE <<Value2(op.d, args[1], args[2])>>
       IN RunOps(ops, k + 1, Force([v \in RangeOf(op.o) |-> vals[PosIn(v, op.o)]] @@ env))
=============================================================================
