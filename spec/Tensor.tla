------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Arrays as the specification sees them: [s |-> shape, d |-> elements in  *)
(* row-major order], and bilinear operations as tables that say, for each  *)
(* output element, which pairs of input elements are multiplied and added. *)
(* Multi-indices are sequences of numbers from 0; positions in d are from 1.*)
(***************************************************************************)
EXTENDS Integers, Sequences, RealField, TLC

RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 1 ELSE Head(s) * Size(Tail(s))
RECURSIVE Ravel(_, _)                    \* multi-index -> offset from 0
Ravel(ix, s) == IF s = <<>> THEN 0 ELSE Head(ix) * Size(Tail(s)) + Ravel(Tail(ix), Tail(s))
RECURSIVE Unravel(_, _)                  \* offset from 0 -> multi-index
Unravel(k, s) == IF s = <<>> THEN <<>>
                 ELSE LET n == Size(Tail(s)) IN <<k \div n>> \o Unravel(k % n, Tail(s))
Last0(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
First0(s, n) == SubSeq(s, 1, n)
SeqMap(s, Op(_)) == [k \in DOMAIN s |-> Op(s[k])]
SeqMax2(a, b) == IF a >= b THEN a ELSE b

\* Broadcasting.
BroadcastShape(s, t) ==
  LET n == SeqMax2(Len(s), Len(t))
      dim(u, k) == LET j == k - (n - Len(u)) IN IF j < 1 THEN 1 ELSE u[j]
  IN [k \in 1..n |-> IF dim(s, k) = 1 THEN dim(t, k) ELSE dim(s, k)]
Broadcastable(s, t) ==
  LET n == SeqMax2(Len(s), Len(t))
      dim(u, k) == LET j == k - (n - Len(u)) IN IF j < 1 THEN 1 ELSE u[j]
  IN \A k \in 1..n : dim(s, k) = dim(t, k) \/ dim(s, k) = 1 \/ dim(t, k) = 1
\* The position in an array of shape s that multi-index ix of a broadcast result reads.
BPos(ix, s) == LET j == Last0(ix, Len(s)) IN 1 + Ravel([k \in DOMAIN s |-> IF s[k] = 1 THEN 0 ELSE j[k]], s)
\* Positions read from shape s by each element of shape t.
BTable(s, t) == [k \in 1..Size(t) |-> BPos(Unravel(k - 1, t), s)]

Tensor(s, d) == [s |-> s, d |-> d]
Fill(s, v) == [s |-> s, d |-> [k \in 1..Size(s) |-> v]]
Binary(a, b, Op(_, _)) ==
  LET s == BroadcastShape(a.s, b.s)
      ta == BTable(a.s, s)
      tb == BTable(b.s, s)
  IN [s |-> s, d |-> [k \in 1..Size(s) |-> Op(a.d[ta[k]], b.d[tb[k]])]]
Unary(a, Op(_)) == [s |-> a.s, d |-> [k \in DOMAIN a.d |-> Op(a.d[k])]]

-----------------------------------------------------------------------------
(* Bilinear operations: [s |-> output shape, t |-> terms], where t[k] is a *)
(* sequence of pairs of positions.                                         *)
MulTable(sa, sb) ==
  LET s == BroadcastShape(sa, sb)
  IN [s |-> s, t |-> [k \in 1..Size(s) |-> << <<BPos(Unravel(k - 1, s), sa), BPos(Unravel(k - 1, s), sb)>> >>]]

\* Einstein summation: la, lb, lo are sequences of labels.
EinsumTable(la, lb, lo, sa, sb) ==
  LET labels == {la[k] : k \in DOMAIN la} \cup {lb[k] : k \in DOMAIN lb}
      dim == [x \in labels |-> IF \E k \in DOMAIN la : la[k] = x THEN sa[CHOOSE k \in DOMAIN la : la[k] = x]
                               ELSE sb[CHOOSE k \in DOMAIN lb : lb[k] = x]]
      inner == LET S == labels \ {lo[k] : k \in DOMAIN lo}
                   RECURSIVE Enum(_) Enum(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o Enum(T \ {x})
               IN Enum(S)
      so == [k \in DOMAIN lo |-> dim[lo[k]]]
      si == [k \in DOMAIN inner |-> dim[inner[k]]]
      Val(x, io, ii) == IF \E k \in DOMAIN lo : lo[k] = x THEN io[CHOOSE k \in DOMAIN lo : lo[k] = x]
                        ELSE ii[CHOOSE k \in DOMAIN inner : inner[k] = x]
  IN [s |-> so,
      t |-> [k \in 1..Size(so) |->
               LET io == Unravel(k - 1, so) IN
               [j \in 1..Size(si) |->
                  LET ii == Unravel(j - 1, si) IN
                  <<1 + Ravel([q \in DOMAIN la |-> Val(la[q], io, ii)], sa),
                    1 + Ravel([q \in DOMAIN lb |-> Val(lb[q], io, ii)], sb)>>]]]

\* Full discrete convolution of vectors.
ConvolveTable(n, m) ==
  [s |-> <<n + m - 1>>,
   t |-> [k \in 1..(n + m - 1) |->
            LET lo == IF k - m + 1 > 1 THEN k - m + 1 ELSE 1
                hi == IF k < n THEN k ELSE n
            IN [j \in 1..(hi - lo + 1) |-> <<lo + j - 1, k - (lo + j - 1) + 1>>]]]

ApplyTable(tab, da, db) ==
  [k \in DOMAIN tab.t |-> RDotProduct([j \in DOMAIN tab.t[k] |-> da[tab.t[k][j][1]]],
                                      [j \in DOMAIN tab.t[k] |-> db[tab.t[k][j][2]]])]
Bilinear(tab, a, b) == [s |-> tab.s, d |-> ApplyTable(tab, a.d, b.d)]
=============================================================================
