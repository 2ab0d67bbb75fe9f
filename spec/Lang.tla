-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* Programs as autobound/jax/jax_bound.py sees them: straight-line code    *)
(* over arrays, with one input x (a scalar or a vector).  A program is     *)
(* [n, nodes]: n = -1 for scalar x, else the length of x; nodes[1] is the  *)
(* input, and the last node is the result.  This module gives the meaning  *)
(* of every supported operation: shapes, values, and the Taylor expansion  *)
(* of t |-> f(x0 + t * v) (elements are "jets", sequences of Taylor        *)
(* coefficients; jets of length 1 are plain values).                       *)
(*                                                                         *)
(* Operations, with a = positions of the arguments:                        *)
(*   x | const c | add sub mul div a,b | neg abs exp log sigmoid softplus  *)
(*   swish sqrt rsqrt cbrt a | ipow k | rpow p | reshape s |                *)
(*   transpose perm | broadcast s (as in NumPy) | bid s dims               *)
(*   (broadcast_in_dim) | sum axes | squeeze axes | window w st pad bd wd   *)
(*   (windowed sum) | dot lc rc lb rb (dot_general) | conv st pad ld rd g   *)
(*   lp rp op2 (conv_general_dilated)                                      *)
(*   unsup i d (an operation without enclosure rule that keeps the shape;  *)
(*   d is its value if a is a constant) | user f (an elementwise operation *)
(*   of the user, with the meaning of operation f)                         *)
(* Axes and dimensions count from 0, as in JAX.                            *)
(***************************************************************************)
EXTENDS Elementwise

In(x, s) == \E k \in DOMAIN s : s[k] = x
IndexIn(x, s) == CHOOSE k \in DOMAIN s : s[k] = x
IotaSeq(n) == [k \in 1..n |-> k - 1]
Without(s, S) == SelectSeq(s, LAMBDA x : ~In(x, S))
Pick0(s, ix) == [k \in DOMAIN ix |-> s[ix[k] + 1]]      \* s at indices counted from 0

ElementwiseOps == {"neg", "abs", "exp", "log", "sigmoid", "softplus", "swish", "sqrt", "rsqrt", "cbrt", "ipow", "rpow"}
BroadcastOps == {"add", "sub", "mul", "div"}
LinearOps == {"reshape", "transpose", "broadcast", "bid", "sum", "squeeze", "window"}
BilinearOps == {"mul", "dot", "conv"}

-----------------------------------------------------------------------------
(* Linear index maps: [s |-> output shape, t |-> for each output element   *)
(* the sequence of positions that are added up].                           *)
WindowOut(n, w, st, lo, hi, bd, wd) ==
  LET dil == IF n = 0 THEN 0 ELSE (n - 1) * bd + 1
      eff == (w - 1) * wd + 1
  IN IF dil + lo + hi < eff THEN 0 ELSE (dil + lo + hi - eff) \div st + 1
LinearTable(nd, s) ==
  CASE nd.op = "reshape" -> [s |-> nd.s, t |-> [k \in 1..Size(s) |-> <<k>>]]
    [] nd.op = "transpose" ->
         LET t == Pick0(s, nd.perm) IN
         [s |-> t, t |-> [k \in 1..Size(t) |-> LET ix == Unravel(k - 1, t) IN
            << 1 + Ravel([q \in DOMAIN s |-> ix[IndexIn(q - 1, nd.perm)]], s) >>]]
    [] nd.op = "broadcast" -> [s |-> nd.s, t |-> [k \in 1..Size(nd.s) |-> << BPos(Unravel(k - 1, nd.s), s) >>]]
    [] nd.op = "bid" -> [s |-> nd.s, t |-> [k \in 1..Size(nd.s) |-> LET ix == Unravel(k - 1, nd.s) IN
            << 1 + Ravel([q \in DOMAIN s |-> IF s[q] = 1 THEN 0 ELSE ix[nd.dims[q] + 1]], s) >>]]
    [] nd.op = "sum" ->
         LET keep == Without(IotaSeq(Len(s)), nd.axes)
             t == Pick0(s, keep)
             inner == Pick0(s, nd.axes)
         IN [s |-> t, t |-> [k \in 1..Size(t) |-> LET io == Unravel(k - 1, t) IN
              [j \in 1..Size(inner) |-> LET ii == Unravel(j - 1, inner) IN
                 1 + Ravel([q \in DOMAIN s |-> IF In(q - 1, nd.axes) THEN ii[IndexIn(q - 1, nd.axes)] ELSE io[IndexIn(q - 1, keep)]], s)]]]
    [] nd.op = "squeeze" -> [s |-> Pick0(s, Without(IotaSeq(Len(s)), nd.axes)), t |-> [k \in 1..Size(s) |-> <<k>>]]
    [] nd.op = "window" ->
         LET t == [q \in DOMAIN s |-> WindowOut(s[q], nd.w[q], nd.st[q], nd.pad[q][1], nd.pad[q][2], nd.bd[q], nd.wd[q])]
             Pos(io, iw, q) == io[q] * nd.st[q] + iw[q] * nd.wd[q] - nd.pad[q][1]   \* in the dilated base
             Hit(io, iw) == \A q \in DOMAIN s : Pos(io, iw, q) >= 0 /\ (Pos(io, iw, q) % nd.bd[q]) = 0 /\ (Pos(io, iw, q) \div nd.bd[q]) < s[q]
         IN [s |-> t, t |-> [k \in 1..Size(t) |-> LET io == Unravel(k - 1, t)
                 hits == SelectSeq([j \in 1..Size(nd.w) |-> Unravel(j - 1, nd.w)], LAMBDA iw : Hit(io, iw))
             IN [j \in DOMAIN hits |-> 1 + Ravel([q \in DOMAIN s |-> Pos(io, hits[j], q) \div nd.bd[q]], s)]]]

(* Bilinear tables, as in module Tensor. *)
DotTable(nd, sa, sb) ==
  LET la == [k \in DOMAIN sa |-> k]
      lb == [k \in DOMAIN sb |-> IF In(k - 1, nd.rc) THEN nd.lc[IndexIn(k - 1, nd.rc)] + 1
                                 ELSE IF In(k - 1, nd.rb) THEN nd.lb[IndexIn(k - 1, nd.rb)] + 1
                                 ELSE 100 + k]
      fa == SelectSeq(la, LAMBDA k : ~In(k - 1, nd.lc) /\ ~In(k - 1, nd.lb))
      fb == SelectSeq(lb, LAMBDA k : k > 100)
  IN EinsumTable(la, lb, [k \in DOMAIN nd.lb |-> nd.lb[k] + 1] \o fa \o fb, sa, sb)
ConvTable(nd, sa, sb) ==
  LET \* canonical order: batch, feature, spatial... / out, in, spatial...
      ca == Pick0(sa, nd.lp)
      cb == Pick0(sb, nd.rp)
      nsp == Len(sa) - 2
      to == <<ca[1], cb[1]>> \o [q \in 1..nsp |-> WindowOut(ca[q + 2], cb[q + 2], nd.st[q], nd.pad[q][1], nd.pad[q][2], nd.ld[q], nd.rd[q])]
      so == [q \in 1..(nsp + 2) |-> to[IndexIn(q - 1, nd.op2)]]
      perg == cb[1] \div nd.g                   \* output features per group
      kern == <<cb[2]>> \o SubSeq(cb, 3, nsp + 2)
      Pos(io, ik, q) == io[q + 2] * nd.st[q] + ik[q + 1] * nd.rd[q] - nd.pad[q][1]
      Hit(io, ik) == \A q \in 1..nsp : Pos(io, ik, q) >= 0 /\ (Pos(io, ik, q) % nd.ld[q]) = 0 /\ (Pos(io, ik, q) \div nd.ld[q]) < ca[q + 2]
      PosA(io, ik) == LET c == <<io[1], (io[2] \div perg) * cb[2] + ik[1]>> \o [q \in 1..nsp |-> Pos(io, ik, q) \div nd.ld[q]]
                      IN 1 + Ravel([q \in DOMAIN sa |-> c[IndexIn(q - 1, nd.lp)]], sa)
      PosB(io, ik) == LET c == <<io[2], ik[1]>> \o [q \in 1..nsp |-> ik[q + 1]]
                      IN 1 + Ravel([q \in DOMAIN sb |-> c[IndexIn(q - 1, nd.rp)]], sb)
  IN [s |-> so, t |-> [k \in 1..Size(so) |->
        LET ix == Unravel(k - 1, so)
            io == Pick0(ix, nd.op2)
            hits == SelectSeq([j \in 1..Size(kern) |-> Unravel(j - 1, kern)], LAMBDA ik : Hit(io, ik))
        IN [j \in DOMAIN hits |-> <<PosA(io, hits[j]), PosB(io, hits[j])>>]]]

-----------------------------------------------------------------------------
(* Shapes. *)
ShapeOf(nd, n, ss) ==
  LET s == ss[nd.a[1]]
  IN CASE nd.op = "x" -> IF n = -1 THEN <<>> ELSE <<n>>
       [] nd.op = "const" -> nd.s
       [] nd.op \in ElementwiseOps \cup {"unsup", "user"} -> s
       [] nd.op \in BroadcastOps -> BroadcastShape(s, ss[nd.a[2]])
       [] nd.op \in LinearOps -> LinearTable(nd, s).s
       [] nd.op = "dot" -> DotTable(nd, s, ss[nd.a[2]]).s
       [] nd.op = "conv" -> ConvTable(nd, s, ss[nd.a[2]]).s
RECURSIVE ShapesFrom(_, _, _)
ShapesFrom(P, k, ss) == IF k > Len(P.nodes) THEN ss ELSE ShapesFrom(P, k + 1, Force(Append(ss, ShapeOf(P.nodes[k], P.n, ss))))
Shapes(P) == ShapesFrom(P, 1, <<>>)

(* Programs with their index tables, so that they are computed only once.  *)
Compile(P) ==
  LET ss == Force(Shapes(P))
  IN Force([k \in DOMAIN P.nodes |->
       LET nd == P.nodes[k] IN
       [nd |-> nd, s |-> ss[k],
        t |-> CASE nd.op \in LinearOps -> LinearTable(nd, ss[nd.a[1]]).t
                [] nd.op = "dot" -> DotTable(nd, ss[nd.a[1]], ss[nd.a[2]]).t
                [] nd.op = "conv" -> ConvTable(nd, ss[nd.a[1]], ss[nd.a[2]]).t
                [] nd.op \in BroadcastOps -> [k2 \in 1..Size(ss[k]) |-> LET ix == Unravel(k2 - 1, ss[k]) IN
                                               <<BPos(ix, ss[nd.a[1]]), BPos(ix, ss[nd.a[2]])>>]
                [] OTHER -> <<>>]])

-----------------------------------------------------------------------------
(* Jets. *)
JConst(v, n) == [i \in 1..(n + 1) |-> IF i = 1 THEN v ELSE R0]
JAdd(u, v) == [i \in DOMAIN u |-> RAdd(u[i], v[i])]
JSub(u, v) == [i \in DOMAIN u |-> RSub(u[i], v[i])]
JNeg(u) == [i \in DOMAIN u |-> RNeg(u[i])]
JMul(u, v) == RConv(u, v)
JSum(s, n) == [i \in 1..(n + 1) |-> RSum([j \in DOMAIN s |-> s[j][i]])]
RECURSIVE JHorner(_, _, _, _)
JHorner(J, w, i, acc) == IF i = 0 THEN acc ELSE JHorner(J, w, i - 1, Force([JMul(acc, w) EXCEPT ![1] = J[i]]))
\* sum_i J[i+1] (u - u0)^i, where J is the jet of the outer function at u0.
JCompose(J, u) == IF Len(u) = 1 THEN <<J[1]>> ELSE LET w == Force([u EXCEPT ![1] = R0]) IN JHorner(J, w, Len(u) - 1, JConst(J[Len(u)], Len(u) - 1))
JApply(F, u) == JCompose(Force(Jet(F, u[1], Len(u) - 1)), u)
PowF(p) == [f |-> "pow", p |-> p]
Half == RDyadic(1, -1)
Third == RDiv(R1, RInt(3))
Certainly0(v) == RLeq(v, R0) /\ RLeq(R0, v)
JPow(p, u) == \* non-negative integers are defined everywhere
  IF Certainly0(p) THEN JConst(R1, Len(u) - 1) ELSE JApply(PowF(p), u)
Apply1(nd, u) ==
  CASE nd.op = "neg" -> JNeg(u)
    [] nd.op \in {"abs", "exp", "log", "sigmoid", "softplus", "swish"} -> JApply(Fn(nd.op), u)
    [] nd.op = "sqrt" -> JApply(PowF(Half), u)
    [] nd.op = "rsqrt" -> JApply(PowF(RNeg(Half)), u)
    [] nd.op = "cbrt" -> IF RLt(u[1], R0) THEN JNeg(JApply(PowF(Third), JNeg(u))) ELSE JApply(PowF(Third), u)
    [] nd.op = "ipow" -> JPow(RInt(nd.k), u)
    [] nd.op = "rpow" -> JPow(nd.p, u)
Apply2(nd, u, v) ==
  CASE nd.op = "add" -> JAdd(u, v)
    [] nd.op = "sub" -> JSub(u, v)
    [] nd.op = "mul" -> JMul(u, v)
    [] nd.op = "div" -> JMul(u, JApply(PowF(RInt(-1)), v))
\* The elements of one node; env holds those of the earlier nodes, xj is the jet of the input.
Step(cn, env, xj, n) ==
  LET nd == cn.nd IN
  CASE nd.op = "x" -> xj
    [] nd.op \in {"const", "unsup"} -> [k \in DOMAIN nd.d |-> JConst(nd.d[k], n)]
    [] nd.op = "user" -> LET u == env[nd.a[1]] IN [k \in DOMAIN u |-> Force(Apply1([nd EXCEPT !.op = nd.f], u[k]))]
    [] nd.op \in ElementwiseOps -> LET u == env[nd.a[1]] IN [k \in DOMAIN u |-> Force(Apply1(nd, u[k]))]
    [] nd.op \in BroadcastOps -> LET u == env[nd.a[1]] v == env[nd.a[2]] IN [k \in DOMAIN cn.t |-> Apply2(nd, u[cn.t[k][1]], v[cn.t[k][2]])]
    [] nd.op \in LinearOps -> LET u == env[nd.a[1]] IN [k \in DOMAIN cn.t |-> IF Len(cn.t[k]) = 1 THEN u[cn.t[k][1]] ELSE JSum([j \in DOMAIN cn.t[k] |-> u[cn.t[k][j]]], n)]
    [] nd.op \in {"dot", "conv"} -> LET u == env[nd.a[1]] v == env[nd.a[2]] IN
          [k \in DOMAIN cn.t |-> JSum([j \in DOMAIN cn.t[k] |-> JMul(u[cn.t[k][j][1]], v[cn.t[k][j][2]])], n)]
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(C, k, env, xj, n) == IF k > Len(C) THEN env ELSE RunFrom(C, k + 1, Force(Append(env, Force(Step(C[k], env, xj, n)))), xj, n)
\* All nodes at the point x, with Taylor coefficients of degree 0..n in direction v.
RunJets(C, x, v, n) == RunFrom(C, 1, <<>>, [k \in DOMAIN x |-> [i \in 1..(n + 1) |-> IF i = 1 THEN x[k] ELSE IF i = 2 THEN v[k] ELSE R0]], n)
RunValues(C, x) == RunJets(C, x, x, 0)
OutOf(env) == env[Len(env)]

-----------------------------------------------------------------------------
(* Natural interval extension: ranges of all nodes over a box, each node   *)
(* from the ranges of its arguments.                                       *)
UndefI == <<RDiv(R1, R0), RDiv(R1, R0)>>
RangeI(F, x) == IF RFinite(x[1]) /\ RFinite(x[2]) /\ Defined(F, x[1], x[2]) THEN RangeOf(F, 0, x[1], x[2]) ELSE UndefI
IApply1(nd, x) ==
  CASE nd.op = "neg" -> NegI(x)
    [] nd.op \in {"abs", "exp", "log", "sigmoid", "softplus", "swish"} -> RangeI(Fn(nd.op), x)
    [] nd.op = "sqrt" -> RangeI(PowF(Half), x)
    [] nd.op = "rsqrt" -> RangeI(PowF(RNeg(Half)), x)
    [] nd.op = "cbrt" -> IF RLt(x[2], R0) THEN NegI(RangeI(PowF(Third), NegI(x))) ELSE RangeI(PowF(Third), x)
    [] nd.op = "ipow" -> IF nd.k = 0 THEN Pt(R1) ELSE RangeI(PowF(RInt(nd.k)), x)
    [] nd.op = "rpow" -> IF Certainly0(nd.p) THEN Pt(R1) ELSE RangeI(PowF(nd.p), x)
IApply2(nd, x, y) ==
  CASE nd.op = "add" -> AddI(x, y)
    [] nd.op = "sub" -> SubI(x, y)
    [] nd.op = "mul" -> IF ~RUndefined(x[1]) /\ ~RUndefined(y[1]) THEN MulI(x, y) ELSE UndefI
    [] nd.op = "div" -> LET r == RangeI(PowF(RInt(-1)), y) IN IF ~RUndefined(x[1]) /\ ~RUndefined(r[1]) THEN MulI(x, r) ELSE UndefI
IStep(cn, env, box) ==
  LET nd == cn.nd IN
  CASE nd.op = "x" -> box
    [] nd.op \in {"const", "unsup"} -> [k \in DOMAIN nd.d |-> Pt(nd.d[k])]
    [] nd.op = "user" -> LET u == env[nd.a[1]] IN [k \in DOMAIN u |-> Force(IApply1([nd EXCEPT !.op = nd.f], u[k]))]
    [] nd.op \in ElementwiseOps -> LET u == env[nd.a[1]] IN [k \in DOMAIN u |-> Force(IApply1(nd, u[k]))]
    [] nd.op \in BroadcastOps -> LET u == env[nd.a[1]] v == env[nd.a[2]] IN [k \in DOMAIN cn.t |-> Force(IApply2(nd, u[cn.t[k][1]], v[cn.t[k][2]]))]
    [] nd.op \in LinearOps -> LET u == env[nd.a[1]] IN [k \in DOMAIN cn.t |-> SumI([j \in DOMAIN cn.t[k] |-> u[cn.t[k][j]]])]
    [] nd.op \in {"dot", "conv"} -> LET u == env[nd.a[1]] v == env[nd.a[2]] IN
          [k \in DOMAIN cn.t |-> SumI([j \in DOMAIN cn.t[k] |-> IApply2([op |-> "mul"], u[cn.t[k][j][1]], v[cn.t[k][j][2]])])]
RECURSIVE IRunFrom(_, _, _, _)
IRunFrom(C, k, env, box) == IF k > Len(C) THEN env ELSE IRunFrom(C, k + 1, Force(Append(env, Force(IStep(C[k], env, box)))), box)
RunIntervals(C, box) == IRunFrom(C, 1, <<>>, box)
\* No range is larger than big, and where an operation is not defined everywhere, its argument varies by a factor less
\* than two and keeps its sign.
Partial(nd) == nd.op \in {"log", "sqrt", "rsqrt", "cbrt", "rpow", "div"} \/ (nd.op = "ipow" /\ nd.k < 0)
Steady(x) == (RLt(R0, x[1]) /\ RLt(x[2], RScale(2, x[1]))) \/ (RLt(x[2], R0) /\ RLt(RScale(2, x[2]), x[1]))
CalmOver(C, env, big) ==
  \A k \in DOMAIN env :
     /\ \A j \in DOMAIN env[k] : ~RUndefined(env[k][j][1]) /\ ~RUndefined(env[k][j][2]) /\ RLt(MagI(env[k][j]), big)
     /\ Partial(C[k].nd) => LET u == env[C[k].nd.a[Len(C[k].nd.a)]] IN \A j \in DOMAIN u : Steady(u[j])

-----------------------------------------------------------------------------
\* Which nodes depend on the input.
RECURSIVE DepFrom(_, _, _)
DepFrom(P, k, dep) == IF k > Len(P.nodes) THEN dep
                      ELSE LET nd == P.nodes[k] IN DepFrom(P, k + 1, Force(Append(dep, nd.op = "x" \/ \E j \in DOMAIN nd.a : dep[nd.a[j]])))
Dependent(P) == DepFrom(P, 1, <<>>)
\* Degree as a polynomial in x, or -1 if the program is not written as one.
DegreeOf(nd, dg) ==
  LET g == [j \in DOMAIN nd.a |-> dg[nd.a[j]]]
      any == \E j \in DOMAIN g : g[j] = -1
  IN CASE nd.op = "x" -> 1
       [] nd.op = "const" -> 0
       [] any -> -1
       [] nd.op \in {"add", "sub"} -> SeqMax2(g[1], g[2])
       [] nd.op \in BilinearOps -> g[1] + g[2]
       [] nd.op = "div" -> IF g[2] = 0 THEN g[1] ELSE -1
       [] nd.op = "neg" \/ nd.op \in LinearOps -> g[1]
       [] nd.op = "ipow" -> IF nd.k >= 0 THEN nd.k * g[1] ELSE IF g[1] = 0 THEN 0 ELSE -1
       [] OTHER -> IF g[1] = 0 THEN 0 ELSE -1
RECURSIVE DegreesFrom(_, _, _)
DegreesFrom(P, k, dg) == IF k > Len(P.nodes) THEN dg ELSE DegreesFrom(P, k + 1, Force(Append(dg, DegreeOf(P.nodes[k], dg))))
Degrees(P) == DegreesFrom(P, 1, <<>>)
=============================================================================
