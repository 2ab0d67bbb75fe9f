------------------------------ MODULE LangSim -------------------------------
(***************************************************************************)
(* Generator of programs (module Lang), for simulation.  A behaviour grows *)
(* a program by one operation (or a small idiom) at a time and emits it.    *)
(* Constants are only given shapes and kinds; the driver chooses values.   *)
(* Profiles: scalar, vector, smooth, poly, act, unsup, user.                            *)
(***************************************************************************)
EXTENDS Lang, TraceIO, IOUtils, SequencesExt
Prof == IOEnv.PROFILE
MinLen == IF "MINLEN" \in DOMAIN IOEnv THEN atoi(IOEnv.MINLEN) ELSE 1
MaxLen == IF "MAXLEN" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXLEN) ELSE 6
Pick(S) == RandomElement(S)
Coin(n) == RandomElement(1..n) = 1
VARIABLES n, nodes, ss, pos, dg, left, phase
vars == <<n, nodes, ss, pos, dg, left, phase>>

MaxSize == 24
Poly == Prof = "poly"
Scalar == Prof \in {"scalar", "smooth"} \/ (Prof \in {"unsup", "user", "act"} /\ n = -1)
X == [op |-> "x", a |-> <<>>]
Const(s, kind) == [op |-> "const", a |-> <<>>, s |-> s, kind |-> kind]
Op1(o, u) == [op |-> o, a |-> <<u>>]
Op2(o, u, v) == [op |-> o, a |-> <<u, v>>]
IPow(u, k) == [op |-> "ipow", a |-> <<u>>, k |-> k]
RPowN(u, i) == [op |-> "rpow", a |-> <<u>>, i |-> i]
Reshape(u, s) == [op |-> "reshape", a |-> <<u>>, s |-> s]

Positive(nd, ps, u) ==
  CASE nd.op = "const" -> nd.kind = "pos"
    [] nd.op \in {"exp", "sigmoid", "softplus"} -> TRUE
    [] nd.op \in {"sqrt", "rsqrt", "cbrt", "ipow", "rpow"} -> ps[nd.a[1]]
    [] nd.op \in {"add", "mul", "div"} -> (ps[nd.a[1]] /\ ps[nd.a[2]]) \/ ("safe" \in DOMAIN nd)
    [] nd.op \in {"reshape", "transpose", "broadcast", "bid", "sum", "squeeze"} -> ps[nd.a[1]]
    [] nd.op = "dot" -> ps[nd.a[1]] /\ ps[nd.a[2]]
    [] OTHER -> FALSE

Init == /\ n \in (IF Prof = "vector" THEN {1, 2, 3} ELSE IF Prof = "act" THEN {-1, -1, 1, 2, 3} ELSE IF Prof = "poly" THEN {-1, 1, 2, 3} ELSE IF Prof \in {"unsup", "user"} THEN {-1, 1, 2} ELSE {-1})
        /\ nodes = <<X>> /\ ss = << IF n = -1 THEN <<>> ELSE <<n>> >> /\ pos = <<FALSE>> /\ dg = <<1>>
        /\ left \in MinLen..MaxLen /\ phase = "grow"

\* Nodes that depend on x, the recent ones more likely.
Dep == SelectSeq([k \in DOMAIN nodes |-> k], LAMBDA k : dg[k] # 0)
PickNode == IF Coin(2) THEN Dep[Len(Dep)] ELSE Dep[Pick(DOMAIN Dep)]
L0 == Len(nodes)

\* Nodes that make u certainly positive; the last one is the positive one.
MakePositive(u, base) ==
  CASE Coin(4) -> <<Op1("exp", u)>>
    [] Coin(4) -> <<Op1("softplus", u)>>
    [] Coin(4) -> <<Op1("sigmoid", u)>>
    [] OTHER -> <<Op2("mul", u, u), Const(<<>>, "pos"), [op |-> "add", a |-> <<base + 1, base + 2>>, safe |-> TRUE]>>
WithPositive(u, F(_)) ==
  IF pos[u] \/ Coin(12) THEN <<F(u)>> ELSE LET m == TLCEval(MakePositive(u, L0)) IN m \o <<F(L0 + Len(m))>>

UnaryKinds ==
  IF Poly THEN {"neg", "ipow", "ipow", "square"}
  ELSE IF Prof = "act" THEN {"sigmoid", "softplus", "swish", "sigmoid", "softplus", "swish", IF Coin(3) THEN "exp" ELSE "swish", IF Coin(3) THEN "neg" ELSE "softplus"}
  ELSE IF Prof = "smooth" THEN {"neg", "exp", "log", "sigmoid", "softplus", "swish", "sqrt", "rsqrt", "cbrt", "ipow", "nipow", "rpow", "square"}
  ELSE {"neg", "abs", "exp", "log", "sigmoid", "softplus", "swish", "sqrt", "rsqrt", "cbrt", "ipow", "nipow", "rpow", "square"}
UnaryStep ==
  LET u == TLCEval(PickNode)
      o == TLCEval(Pick(UnaryKinds))
      k == TLCEval(Pick(0..5))
      i == TLCEval(Pick(1..18))
  IN CASE o = "square" -> <<Op2("mul", u, u)>>
       [] o = "ipow" -> <<IPow(u, IF k = 0 /\ ~Coin(3) THEN 2 ELSE k)>>
       [] o = "nipow" -> WithPositive(u, LAMBDA v : IPow(v, -1 - (k % 3)))
       [] o = "rpow" -> WithPositive(u, LAMBDA v : RPowN(v, i))
       [] o = "cbrt" -> IF Prof = "smooth" \/ Coin(2) THEN WithPositive(u, LAMBDA v : Op1("cbrt", v)) ELSE <<Op1("cbrt", u)>>
       [] o \in {"log", "sqrt", "rsqrt"} -> WithPositive(u, LAMBDA v : Op1(o, v))
       [] OTHER -> <<Op1(o, u)>>
\* A shape that broadcasts with s.
ConstShape(s) ==
  CASE Coin(3) -> <<>>
    [] Coin(3) -> s
    [] Coin(3) /\ Len(s) >= 1 -> Tail(s)
    [] Coin(2) /\ Len(s) >= 1 -> [s EXCEPT ![Pick(DOMAIN s)] = 1]
    [] Coin(2) /\ Len(s) < 3 /\ Size(s) <= 8 -> <<Pick({2, 3}), 1>> \o (IF s = <<>> THEN <<>> ELSE Tail(s))
    [] Coin(2) /\ Len(s) < 3 /\ Size(s) <= 8 -> <<2>> \o s
    [] OTHER -> <<>>
ConstStep ==
  LET u == TLCEval(PickNode)
      o == TLCEval(Pick(IF Poly THEN {"add", "sub", "mul"} ELSE {"add", "sub", "mul", "div"}))
      flip == TLCEval(Coin(2))
      s == TLCEval(IF Scalar /\ ~Coin(8) THEN <<>> ELSE ConstShape(ss[u]))
      c(kind) == Const(s, kind)
  IN IF o = "div" THEN (IF flip THEN WithPositive(u, LAMBDA v : IPow(v, -1)) ELSE <<c("pos"), Op2("div", u, L0 + 1)>>)
     ELSE <<c(IF Coin(3) THEN "pos" ELSE "any")>> \o <<IF flip THEN Op2(o, L0 + 1, u) ELSE Op2(o, u, L0 + 1)>>
PairStep ==
  LET u == TLCEval(PickNode)
      w == TLCEval(PickNode)
      v == IF Broadcastable(ss[u], ss[w]) THEN w ELSE u
      o == TLCEval(Pick(IF Poly THEN {"add", "sub", "mul", "mul"} ELSE {"add", "sub", "mul", "mul", "div"}))
  IN IF o = "div" THEN (IF pos[v] \/ Coin(12) THEN <<Op2("div", u, v)>>
                        ELSE LET m == TLCEval(MakePositive(v, L0)) IN m \o <<Op2("div", u, L0 + Len(m))>>)
     ELSE <<Op2(o, u, v)>>

\* Ways to write k as a product.
Factor(k) == Pick({<<a, b>> \in (1..k) \X (1..k) : a * b = k})
Factor3(k) == Pick({<<a, b, d>> \in (1..k) \X (1..k) \X (1..k) : a * b * d = k})
AnyShape(k) == CASE Coin(4) -> <<k>> [] Coin(3) -> Factor3(k) [] OTHER -> Factor(k)
Perm(r) == Pick({p \in [1..r -> 0..(r - 1)] : \A i, j \in 1..r : p[i] = p[j] => i = j})
Axes(r) == SetToSortSeq(Pick(SUBSET (0..(r - 1)) \ {{}}), LAMBDA a, b : a < b)
StructStep ==
  LET u == TLCEval(PickNode)
      s == ss[u]
      r == Len(s)
      o == TLCEval(Pick({"reshape", "transpose", "broadcast", "bid", "sum", "squeeze", "window", "transpose", "sum", "window"}))
      ones == TLCEval(SelectSeq(IotaSeq(r), LAMBDA k : s[k + 1] = 1))
      win == TLCEval([k \in 1..r |-> [w |-> Pick(1..3), st |-> Pick({1, 1, 2}), lo |-> Pick({0, 0, 1}), hi |-> Pick({0, 0, 1, 2}), bd |-> IF Coin(5) THEN 2 ELSE 1, wd |-> IF Coin(5) THEN 2 ELSE 1]])
      perm == TLCEval(Perm(r + 1))
  IN CASE o = "transpose" /\ r >= 2 -> << [op |-> "transpose", a |-> <<u>>, perm |-> Perm(r)] >>
       [] o = "broadcast" /\ r <= 2 -> << [op |-> "broadcast", a |-> <<u>>, s |-> [k \in 1..(r + 1) |-> IF k = 1 THEN Pick(1..3) ELSE s[k - 1]]] >>
       [] o = "bid" /\ r <= 2 ->
            \* s spread over r + 1 dimensions, in order
            LET skip == TLCEval(Pick(1..(r + 1)))
                dims == [k \in 1..r |-> IF k < skip THEN k - 1 ELSE k]
                m == TLCEval(Pick(1..3))
            IN << [op |-> "bid", a |-> <<u>>, dims |-> dims, s |-> [k \in 1..(r + 1) |-> IF k = skip THEN m ELSE LET d == s[IF k < skip THEN k ELSE k - 1] IN IF d = 1 /\ Coin(3) THEN 2 ELSE d]] >>
       [] o = "sum" /\ r >= 1 -> << [op |-> "sum", a |-> <<u>>, axes |-> Axes(r)] >>
       [] o = "squeeze" /\ ones # <<>> -> << [op |-> "squeeze", a |-> <<u>>, axes |-> IF Coin(2) THEN ones ELSE <<ones[1]>>] >>
       [] o = "window" /\ r >= 1 -> << [op |-> "window", a |-> <<u>>, w |-> [k \in 1..r |-> win[k].w], st |-> [k \in 1..r |-> win[k].st],
                                       pad |-> [k \in 1..r |-> <<win[k].lo, win[k].hi>>], bd |-> [k \in 1..r |-> win[k].bd], wd |-> [k \in 1..r |-> win[k].wd]] >>
       [] OTHER -> <<Reshape(u, AnyShape(Size(s)))>>

\* dot_general with random dimension numbers: the second operand is built to fit.
DotStep ==
  LET u == TLCEval(PickNode)
      s == ss[u]
      r == Len(s)
      role == TLCEval([k \in 1..r |-> Pick({"free", "batch", "contract", "contract"})])
      lc == TLCEval(LET q == SelectSeq(IotaSeq(r), LAMBDA k : role[k + 1] = "contract") IN IF Len(q) > 1 THEN (IF Coin(2) THEN Reverse(q) ELSE q) ELSE q)
      lb == TLCEval(LET q == SelectSeq(IotaSeq(r), LAMBDA k : role[k + 1] = "batch") IN IF Len(q) > 1 /\ Coin(2) THEN Reverse(q) ELSE q)
      extra == TLCEval(IF Coin(3) THEN <<>> ELSE <<Pick(1..3)>>)
      sizes == Pick0(s, lb) \o Pick0(s, lc) \o extra
      m == Len(sizes)
      pm == TLCEval(Perm(m))                    \* position of each of them in the second operand
      rs == TLCEval([k \in 1..m |-> sizes[CHOOSE j \in 1..m : pm[j] = k - 1]])
      rb == [k \in DOMAIN lb |-> pm[k]]
      rc == [k \in DOMAIN lc |-> pm[Len(lb) + k]]
      \* a node with as many elements can serve as the second operand
      same == SelectSeq(Dep, LAMBDA k : Size(ss[k]) = Size(rs))
      second == TLCEval(IF same # <<>> /\ ~Coin(4) THEN <<Reshape(same[Pick(DOMAIN same)], rs)>> ELSE <<Const(rs, "any")>>)
      swap == TLCEval(Coin(2))
      d(x, y) == IF swap THEN [op |-> "dot", a |-> <<y, x>>, lc |-> rc, rc |-> lc, lb |-> rb, rb |-> lb]
                 ELSE [op |-> "dot", a |-> <<x, y>>, lc |-> lc, rc |-> rc, lb |-> lb, rb |-> rb]
  IN IF r > 3 \/ Size(sizes) > MaxSize THEN <<Op1("neg", u)>>
     ELSE second \o <<d(u, L0 + 1)>>
ConvStep ==
  LET u == TLCEval(PickNode)
      k == Size(ss[u])
      f == TLCEval(Factor3(k))
      two == TLCEval(Coin(3))
      nsp == IF two THEN 2 ELSE 1
      f4 == TLCEval(Factor(f[3]))
      g == TLCEval(IF f[2] % 2 = 0 /\ Coin(3) THEN 2 ELSE 1)
      ca == <<f[1], f[2]>> \o (IF two THEN f4 ELSE <<f[3]>>)
      o == TLCEval(g * Pick({1, 1, 2}))
      cb == TLCEval(<<o, f[2] \div g>> \o [q \in 1..nsp |-> Pick(1..3)])
      pl == TLCEval(IF Coin(2) THEN IotaSeq(nsp + 2) ELSE Perm(nsp + 2))
      pr == TLCEval(IF Coin(2) THEN IotaSeq(nsp + 2) ELSE Perm(nsp + 2))
      po == TLCEval(IF Coin(2) THEN IotaSeq(nsp + 2) ELSE Perm(nsp + 2))
      \* canonical dimension q is stored at position p[q]
      lay(c, p) == [j \in DOMAIN c |-> c[IndexIn(j - 1, p)]]
      conv == [op |-> "conv", a |-> <<L0 + 1, L0 + 2>>, st |-> [q \in 1..nsp |-> Pick({1, 1, 2})], pad |-> [q \in 1..nsp |-> <<Pick(0..1), Pick(0..2)>>],
               ld |-> [q \in 1..nsp |-> IF Coin(4) THEN 2 ELSE 1], rd |-> [q \in 1..nsp |-> IF Coin(4) THEN 2 ELSE 1], g |-> g, lp |-> pl, rp |-> pr, op2 |-> po]
      sb == lay(cb, pr)
      same == SelectSeq(Dep, LAMBDA j : Size(ss[j]) = Size(sb))
      second == TLCEval(IF same # <<>> /\ Coin(2) THEN Reshape(same[Pick(DOMAIN same)], sb) ELSE Const(sb, "any"))
  IN IF k > 12 THEN <<Op1("neg", u)>> ELSE <<Reshape(u, lay(ca, pl)), second, conv>>

Choice == IF Scalar THEN Pick({1, 2, 3, 4, 5, 6, 7, 8, IF Coin(3) THEN 9 ELSE 1}) ELSE Pick(1..14)
\* Operations without rule (profile unsup) and operations of the user (profile user).
Special(k) == nodes[k].op \in {"unsup", "user"}
HasSpecial == \E k \in DOMAIN nodes : Special(k)
UserFs == {"exp", "sigmoid", "softplus", "swish"}
SpecialStep ==
  LET u == TLCEval(PickNode)
      i == TLCEval(Pick(1..1000))
  IN IF Prof = "user" THEN <<[op |-> "user", a |-> <<u>>, f |-> Pick(UserFs)]>>
     ELSE IF Coin(2) THEN <<[op |-> "unsup", a |-> <<u>>, i |-> i]>>
     ELSE <<Const(IF Scalar THEN <<>> ELSE ConstShape(ss[u]), "any"), [op |-> "unsup", a |-> <<L0 + 1>>, i |-> i], Op2(Pick({"add", "mul", "sub"}), u, L0 + 2)>>
SpecialNow == Prof \in {"unsup", "user"} /\ ~HasSpecial /\ Coin(left)
\* Nodes that the node k depends on.
RECURSIVE Uses(_)
Uses(k) == {k} \cup UNION {Uses(nodes[k].a[j]) : j \in DOMAIN nodes[k].a}
\* Makes the result depend on the special nodes.
Attach == IF ~HasSpecial \/ (\E k \in Uses(Len(nodes)) : Special(k)) THEN <<>>
          ELSE LET k == CHOOSE k \in DOMAIN nodes : Special(k)
                   r == Len(ss[k])
               IN (IF r = 0 THEN <<>> ELSE <<[op |-> "sum", a |-> <<k>>, axes |-> IotaSeq(r)]>>)
                  \o <<Op2("add", L0, IF r = 0 THEN k ELSE L0 + 1)>>
\* Functions that resemble an activation function (profile act): nodes to be placed in a compiled function of that name.
Near(name, nds) == [k \in DOMAIN nds |-> IF k = 1 THEN nds[1] @@ [near |-> [name |-> name, len |-> Len(nds)]] ELSE nds[k]]
NearStep ==
  LET u == TLCEval(PickNode)
      w == TLCEval(PickNode)
      v == IF ss[u] = ss[w] THEN w ELSE u
      m == L0 + 1
      S == Op1("sigmoid", u)
      other == TLCEval(Pick({"sigmoid", "softplus", "swish", "exp"}))
  IN CASE Coin(12) -> Near("silu", <<Op2("add", u, u), Op1("sigmoid", m), Op2("mul", u, m + 1)>>)
       [] Coin(11) -> Near("silu", <<S, Op2("mul", m, m)>>)
       [] Coin(10) -> Near("silu", <<S, Op2("add", u, u), Op2("mul", m, m + 1)>>)
       [] Coin(9) -> Near("silu", <<Op1("neg", u), Op1("sigmoid", m), Op2("mul", u, m + 1)>>)
       [] Coin(8) -> Near("silu", <<Op1(IF other = "sigmoid" THEN "exp" ELSE other, u), Op2("mul", u, m)>>)
       [] Coin(7) -> Near("silu", <<S, Op2(Pick({"add", "sub"}), u, m)>>)
       [] Coin(6) -> Near("silu", <<S, Op2("mul", u, m), Op2("mul", u, m + 1)>>)
       [] Coin(5) -> Near("silu", <<Op1("sigmoid", v), Op2("mul", u, m)>>)
       [] Coin(4) -> Near("silu", <<S, Op2("mul", m, u)>>)
       [] Coin(3) -> Near(Pick({"silu", "softplus", "sigmoid", "logaddexp", "logistic", "swish"}), <<Op1(other, u)>>)
       [] Coin(2) -> Near(Pick({"sigmoid", "softplus"}), <<Op1(other, u), Op2("mul", m, m)>>)
       [] OTHER -> Near(Pick({"sigmoid", "softplus"}), <<Op1("neg", u), Op1(other, m)>>)
\* The same operation twice, on the same operand, with other parameters.
TwinStep ==
  LET u == TLCEval(PickNode)
      s == ss[u]
      r == Len(s)
      m == Size(s)
      twins == {<<i, j>> \in (1..r) \X (1..r) : i < j /\ s[i] = s[j] /\ s[i] > 1}
      o == TLCEval(Pick({"add", "sub", "mul"}))
      k == TLCEval(Pick({0, 2, 2, 3}))
      i == TLCEval(Pick(1..18))
      both(pre, x, y) == pre \o <<x, y, Op2(o, L0 + Len(pre) + 1, L0 + Len(pre) + 2)>>
      Two(pre, v, rk, q1, q2, len) ==
        CASE Coin(3) -> both(pre, [op |-> "sum", a |-> <<v>>, axes |-> <<q1 - 1>>], [op |-> "sum", a |-> <<v>>, axes |-> <<q2 - 1>>])
          [] Coin(2) -> LET id == [z \in 1..rk |-> z - 1]
                            sw == [z \in 1..rk |-> IF z = q1 THEN q2 - 1 ELSE IF z = q2 THEN q1 - 1 ELSE z - 1]
                        IN both(pre, [op |-> "transpose", a |-> <<v>>, perm |-> sw], [op |-> "transpose", a |-> <<v>>, perm |-> id])
          [] OTHER -> LET pre2 == Append(pre, Const(<<len>>, "any"))
                          c0 == L0 + Len(pre2)
                          d(q) == [op |-> "dot", a |-> <<v, c0>>, lc |-> <<q - 1>>, rc |-> <<0>>, lb |-> <<>>, rb |-> <<>>]
                      IN both(pre2, d(q1), d(q2))
      win(lo, hi) == [op |-> "window", a |-> <<u>>, w |-> [z \in 1..r |-> 2], st |-> [z \in 1..r |-> 1], pad |-> [z \in 1..r |-> <<lo, hi>>], bd |-> [z \in 1..r |-> 1], wd |-> [z \in 1..r |-> 1]]
      \* the axes of a pair of equal length, if any
      pr == TLCEval(IF twins = {} THEN <<1, 2>> ELSE Pick(twins))
  IN CASE ~Scalar /\ r >= 1 /\ Coin(5) -> both(<<>>, win(0, 1), win(1, 0))
       [] ~Scalar /\ twins # {} /\ (\A z \in 1..r : z \in {pr[1], pr[2]}) /\ ~Coin(5) -> Two(<<>>, u, r, pr[1], pr[2], s[pr[1]])
       [] ~Scalar /\ m \in 2..4 /\ ~Coin(5) -> Two(<<Reshape(u, <<m, 1>>), Const(<<1, m>>, "any"), Op2("mul", L0 + 1, L0 + 2)>>, L0 + 3, 2, 1, 2, m)
       [] ~Poly /\ pos[u] -> both(<<>>, RPowN(u, i), RPowN(u, 1 + (i % 18)))
       [] OTHER -> both(<<>>, IPow(u, k), IPow(u, k + 1))
NewNodes ==
  LET r == TLCEval(IF SpecialNow THEN 99 ELSE IF Prof = "act" /\ Coin(2) THEN (IF Coin(4) THEN 98 ELSE 1) ELSE Choice)
  IN CASE r = 99 -> SpecialStep
       [] r = 98 -> NearStep
       [] r # 99 /\ Coin(12) -> TwinStep
       [] r \in 1..3 -> UnaryStep
       [] r \in 4..5 -> ConstStep
       [] r \in 6..8 -> PairStep
       [] r \in 9..11 -> StructStep
       [] r = 12 \/ r = 13 -> DotStep
       [] OTHER -> ConvStep
RECURSIVE Extend(_, _, _)
Extend(new, k, acc) ==
  IF k > Len(new) THEN acc
  ELSE LET nd == new[k]
           sh == TLCEval(ShapeOf(nd, n, acc.ss))
       IN Extend(new, k + 1, TLCEval([nodes |-> Append(acc.nodes, nd), ss |-> Append(acc.ss, sh),
                              pos |-> Append(acc.pos, Positive(nd, acc.pos, 0)), dg |-> Append(acc.dg, DegreeOf(nd, acc.dg))]))
Fits(e) == \A k \in DOMAIN e.ss : Size(e.ss[k]) \in 1..MaxSize /\ Len(e.ss[k]) <= 4
Grow == /\ phase = "grow" /\ left > 0
        /\ \E new \in {TLCEval(NewNodes)} :
           \E e \in {Extend(new, 1, [nodes |-> nodes, ss |-> ss, pos |-> pos, dg |-> dg])} :
             IF Fits(e) /\ (Poly => e.dg[Len(e.dg)] <= 5)
             THEN /\ nodes' = e.nodes /\ ss' = e.ss /\ pos' = e.pos /\ dg' = e.dg /\ left' = left - 1
             ELSE UNCHANGED <<nodes, ss, pos, dg, left>>
        /\ UNCHANGED <<n, phase>>
Finish == /\ phase = "grow" /\ left = 0 /\ Attach # <<>>
          /\ \E e \in {Extend(Attach, 1, [nodes |-> nodes, ss |-> ss, pos |-> pos, dg |-> dg])} :
               nodes' = e.nodes /\ ss' = e.ss /\ pos' = e.pos /\ dg' = e.dg
          /\ UNCHANGED <<n, left, phase>>
Emit == /\ phase = "grow" /\ left = 0 /\ Attach = <<>> /\ phase' = "done"
        /\ EmitJson(IOEnv.CASES, [n |-> n, nodes |-> nodes, prof |-> Prof, deg |-> dg[Len(dg)], s |-> ss[Len(ss)]])
        /\ UNCHANGED <<n, nodes, ss, pos, dg, left>>
Next == Grow \/ Finish \/ Emit
=============================================================================
