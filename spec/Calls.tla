------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Which arguments the public functions must accept and which they must    *)
(* refuse (property C17).  The state space is the set of calls; every call *)
(* is emitted for the driver, and its recorded outcome is judged with the  *)
(* same definition (module Trace_Refuse).                                  *)
(***************************************************************************)
EXTENDS Enclosure, TraceIO, IOUtils

RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN <<>> ELSE s \o Rep(s, k - 1)
\* An array of shape s can be read as one of shape t.
Fits(s, t) == Len(s) <= Len(t) /\ \A k \in DOMAIN s : LET d == t[Len(t) - Len(s) + k] IN s[k] = d \/ s[k] = 1
Trailing(s, t) == Len(s) >= Len(t) /\ Last0(s, Len(t)) = t
WellFormed(shapes, sx) == \A k \in DOMAIN shapes : Trailing(shapes[k], Rep(sx, k - 1))
\* All coefficients belong to values of the same shape.
Uniform(shapes, sx) == \A k \in DOMAIN shapes : shapes[k] = shapes[1] \o Rep(sx, k - 1)

\* "ok": must succeed, "raise": must raise an exception, "any": either.
Expected(t) ==
  CASE t.fn = "bounds" ->
         IF t.D < 0 \/ Len(t.sx) > 1 \/ t.ends # 2 \/ ~Fits(t.sa, t.sx) \/ ~Fits(t.sb, t.sx) THEN "raise"
         ELSE IF t.sa = t.sx /\ t.sb = t.sx THEN "ok" ELSE "any"
    [] t.fn = "arith" ->
         IF t.D < 0 \/ t.sa # t.sb \/ ~WellFormed(t.u, t.sa) \/ (t.op \in {"multiply", "divide"} /\ ~WellFormed(t.v, t.sa)) THEN "raise"
         ELSE IF Uniform(t.u, t.sa) /\ Uniform(t.v, t.sa) THEN "ok" ELSE "any"
    [] t.fn = "enclose" -> IF t.D < 0 THEN "raise" ELSE "ok"
    [] t.fn = "ipower" -> IF t.k < 0 THEN "raise" ELSE "ok"
    [] t.fn = "opower" -> IF t.k < 0 THEN "raise" ELSE "ok"
    [] t.fn = "oproduct" -> IF t.k > Len(t.sa) \/ t.k > Len(t.sb) THEN "raise"
                               ELSE IF \A i \in 1..t.k : t.sa[i] = t.sb[i] THEN "ok" ELSE "any"
    [] t.fn = "ppower" -> IF t.k < 0 THEN "raise" ELSE "ok"
    [] t.fn = "monotone" -> IF t.D < 0 \/ t.k # t.D + 1 THEN "raise" ELSE "ok"
    [] t.fn = "bounded" -> IF t.k # t.D THEN "raise" ELSE "ok"
    [] t.fn = "replace" -> IF t.k # t.k2 \/ t.m # t.m2 \/ t.const THEN "raise" ELSE "ok"
    [] t.fn = "graph" -> IF t.k = 0 THEN "raise" ELSE "ok"

Shapes0 == {<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>}
Good(so, sx, d) == [k \in 1..(d + 1) |-> so \o Rep(sx, k - 1)]
\* Operands with at most one wrong coefficient.
Operands(sx) ==
  LET good == {Good(so, sx, d) : so \in {<<>>, <<2>>}, d \in 0..2}
  IN good \cup {[g EXCEPT ![k] = s] : g \in {h \in good : Len(h) > 1}, k \in {2}, s \in {<<>>, <<3>>, <<2, 3>>}}
          \cup {[g EXCEPT ![3] = s] : g \in {h \in good : Len(h) = 3}, s \in {<<>>, <<2>>, <<3, 2>>}}
Good2(sx) == {Good(<<>>, sx, 1), Good(<<2>>, sx, 2)}
Calls ==
  [fn : {"bounds"}, D : -2..2, sx : {<<>>, <<1>>, <<2>>, <<3>>, <<1, 1>>, <<2, 2>>, <<2, 1, 1>>}, sa : Shapes0, sb : {<<>>, <<2>>, <<3>>}, ends : {2}, prop : BOOLEAN]
  \cup [fn : {"bounds"}, D : 0..2, sx : {<<>>, <<1>>, <<2>>, <<3>>}, sa : {<<>>, <<1>>, <<2>>, <<3>>}, sb : {<<1>>}, ends : {1, 3}, prop : {FALSE}]
  \cup UNION {[fn : {"arith"}, op : {"multiply", "power", "root", "divide"}, D : {-1, 2}, sa : {sx}, sb : {<<>>, <<2>>}, u : Operands(sx), v : Good2(sx)] : sx \in {<<>>, <<2>>}}
  \cup UNION {[fn : {"arith"}, op : {"multiply", "divide"}, D : {1}, sa : {sx}, sb : {sx}, u : Good2(sx), v : Operands(sx)] : sx \in {<<>>, <<2>>}}
  \cup [fn : {"enclose"}, D : -3..2]
  \cup [fn : {"ipower", "opower", "ppower"}, k : -4..4]
  \cup [fn : {"oproduct"}, k : 0..3, sa : {<<>>, <<2>>, <<2, 3>>}, sb : {<<>>, <<2>>, <<2, 2>>}]
  \cup [fn : {"monotone"}, D : -1..3, k : 0..5]
  \cup [fn : {"bounded"}, D : 0..3, k : 0..5]
  \cup [fn : {"replace"}, k : 1..3, k2 : 1..3, m : 1..2, m2 : 1..2, const : BOOLEAN]
  \cup [fn : {"graph"}, k : 0..2]
=============================================================================
