---------------------------- MODULE Bounds ----------------------------------
(***************************************************************************)
(* Checks recorded results of taylor_bounds against the meaning of the     *)
(* bounded program (module Lang): properties C11 to C16, C18 and C25.      *)
(* A case has the program t.P, the reference point t.x0 and region t.a,    *)
(* t.b (sequences), the maximum degree t.D, and results t.r (and t.r2):     *)
(* [status, E |-> coefficients, pts |-> bounds recorded at the points t.xs]. *)
(***************************************************************************)
EXTENDS Lang, Enclosure, TraceBase
Sx(t) == IF t.P.n = -1 THEN <<>> ELSE <<t.P.n>>
Diff(x, y) == [k \in DOMAIN x |-> RSub(x[k], y[k])]
MaxAbs(s) == LET RECURSIVE G(_, _) G(k, acc) == IF k > Len(s) THEN acc ELSE G(k + 1, RMax(acc, RAbs(s[k]))) IN G(1, R0)
MaxOver(s) == LET RECURSIVE G(_, _) G(k, acc) == IF k > Len(s) THEN acc ELSE G(k + 1, RMax(acc, s[k])) IN G(1, R0)
\* Largest value of any node (elements are jets).
MaxNode(env) == MaxOver([k \in DOMAIN env |-> MaxOver([j \in DOMAIN env[k] |-> RAbs(env[k][j][1])])])
Far(t) == [k \in DOMAIN t.x0 |-> RMax(RSub(t.b[k], t.x0[k]), RSub(t.x0[k], t.a[k]))]

(* Roundoff.  A result is computed with errors relative to the intermediate *)
(* values and to the terms of the polynomial.  Where x0 lies at the end of  *)
(* the range of an intermediate value, the last coefficient is a quotient   *)
(* by a tiny number (the code caps it at 1e-12), and errors are larger.     *)
Eps(t) == IF t.f32 THEN RDyadic(1, -11) ELSE RDyadic(1, -30)
EpsEdge(t) == IF t.f32 THEN RInt(2) ELSE RDyadic(1, -10)
Margin(t) == IF t.f32 THEN RDyadic(1, -3) ELSE RDyadic(1, -7)
NearEdge(C, env0, ranges, margin) ==
  \E k \in DOMAIN C :
     C[k].nd.op \in (ElementwiseOps \ {"neg"}) \cup {"div"}
     /\ LET u == C[k].nd.a[Len(C[k].nd.a)] IN
        \E j \in DOMAIN env0[u] :
           LET v == env0[u][j][1]
               lo == RSub(v, ranges[u][j][1])
               hi == RSub(ranges[u][j][2], v)
           IN ~(Certainly0(lo) /\ Certainly0(hi)) /\ (RUndefined(lo) \/ RUndefined(hi) \/ RLt(lo, margin) \/ RLt(hi, margin))

\* Beyond (or close to the end of) the range of floating-point numbers.
Overflows(t, m) == RLt(RDyadic(1, IF t.f32 THEN 100 ELSE 900), m)
Sound(t, r, C, eps, calm) ==
  LET mag == Force(MagnitudeTo(r.E, Sx(t), C[Len(C)].s, Far(t)))
  IN \A q \in DOMAIN t.xs :
       LET env == Force(RunValues(C, t.xs[q]))
           y == OutOf(env)
           M == Force(MaxNode(env))
       IN /\ Len(r.pts[q].lo) = Len(y) /\ Len(r.pts[q].hi) = Len(y)
          /\ \A b \in DOMAIN y :
             LET v == y[b][1]
                 lo == r.pts[q].lo[b]
                 hi == r.pts[q].hi[b]
                 tol == RMul(eps, RAdd(RAdd(R1, M), IF RFinite(mag[b]) THEN mag[b] ELSE R0))
             IN ~RFinite(v) \/ Overflows(t, M) \/ ( /\ IF RUndefined(lo) THEN ~calm ELSE (RLt(lo, R0) /\ ~RFinite(lo)) \/ ~Exceeds(lo, v, tol)
                                 /\ IF RUndefined(hi) THEN ~calm ELSE (RLt(R0, hi) /\ ~RFinite(hi)) \/ ~Exceeds(v, hi, tol))
Wider(t, q) == [k \in DOMAIN t.x0 |-> <<RSub(t.x0[k], RMul(RInt(q), RSub(t.x0[k], t.a[k]))), RAdd(t.x0[k], RMul(RInt(q), RSub(t.b[k], t.x0[k])))>>]
\* Bounds must be numbers if everything stays defined and moderate over a region three times as wide, and the region is narrow.
Calm(t, C) ==
  /\ \A k \in DOMAIN t.x0 : RLt(RSub(t.b[k], t.a[k]), IF \E j \in DOMAIN C : Partial(C[j].nd) THEN RDyadic(1, -2) ELSE R1)
  /\ CalmOver(C, Force(RunIntervals(C, Wider(t, 3))), RInt(50))
AtEdge(t, C) == NearEdge(C, Force(RunValues(C, t.x0)), Force(RunIntervals(C, Wider(t, 1))), Margin(t))
Tolerance(t, C) == IF AtEdge(t, C) THEN EpsEdge(t) ELSE Eps(t)
Status(t, r) == <<"raised: " \o r.status, r.status = "ok" \/ (r.status = "notimpl" /\ t.mayrefuse)>>
SoundClauses(t) ==
  LET C == Force(Compile(t.P)) IN
  IF t.r.status # "ok" THEN <<Status(t, t.r)>>
  ELSE << <<"function outside its bounds", LET edge == Force(AtEdge(t, C)) IN Sound(t, t.r, C, IF edge THEN EpsEdge(t) ELSE Eps(t), Force(Calm(t, C) /\ ~(edge /\ t.f32)))>>,
          <<"shape", BatchOf(t.r.E, Sx(t)) = C[Len(C)].s>> >>


-----------------------------------------------------------------------------
(* Comparisons of two results. *)
OK2(t) == t.r.status = "ok" /\ t.r2.status = "ok"
FinitePair(x, y) == RFinite(x) /\ RFinite(y)
SameNumber(x, y, tol) == IF FinitePair(x, y) THEN ~FarApart(x, y, tol) ELSE (~RFinite(x) /\ ~RFinite(y))
MaxOf2(x, y) == RMax(RAbs(x), RAbs(y))
CoefMag(co) == RMax(MaxAbs([k \in DOMAIN co.lo |-> IF RFinite(co.lo[k]) THEN co.lo[k] ELSE R0]), MaxAbs([k \in DOMAIN co.hi |-> IF RFinite(co.hi[k]) THEN co.hi[k] ELSE R0]))
SameCoefs(x, y, tol) ==
  x.iv = y.iv /\ x.s = y.s /\ LET m == RMul(tol, RAdd(R1, RMax(CoefMag(x), CoefMag(y)))) IN
     \A k \in DOMAIN x.lo : SameNumber(x.lo[k], y.lo[k], m) /\ SameNumber(x.hi[k], y.hi[k], m)
\* The points of r2 are at least as tight as those of r.
TighterAt(t, q, b, tol) ==
  LET p == t.r.pts[q] p2 == t.r2.pts[q] IN
  /\ RFinite(p.lo[b]) => (RFinite(p2.lo[b]) /\ ~Exceeds(p.lo[b], p2.lo[b], tol))
  /\ RFinite(p.hi[b]) => (RFinite(p2.hi[b]) /\ ~Exceeds(p2.hi[b], p.hi[b], tol))
Tighter(t, mag, eps) == \A q \in DOMAIN t.xs : \A b \in DOMAIN t.r.pts[q].lo : TighterAt(t, q, b, RMul(eps, RAdd(R1, IF RFinite(mag[b]) THEN mag[b] ELSE R0)))
Smooth(P) == \A k \in DOMAIN P.nodes : P.nodes[k].op # "abs"

-----------------------------------------------------------------------------
(* C13: the form of a result. *)
Plain(co) == ~co.iv
RECURSIVE Repeat(_, _)
Repeat(s, k) == IF k = 0 THEN <<>> ELSE s \o Repeat(s, k - 1)
FormClauses(t) ==
  IF t.r.status # "ok" THEN <<Status(t, t.r)>>
  ELSE LET C == Force(Compile(t.P))
           E == t.r.E
           sx == Sx(t)
           so == C[Len(C)].s
           shapes == \A k \in DOMAIN E : E[k].s = so \o Repeat(sx, k - 1) /\ Len(E[k].lo) = Size(E[k].s) /\ Len(E[k].hi) = Size(E[k].s)
           last == E[Len(E)]
           eps == Force(Tolerance(t, C))
           finite == \A k \in DOMAIN last.lo : RFinite(last.lo[k]) /\ RFinite(last.hi[k])
       IN << <<"degree", Len(E) \in 1..(t.D + 1)>>,
             <<"interval below the last coefficient", \A k \in 1..(Len(E) - 1) : Plain(E[k])>>,
             <<"shape", shapes>>,
             <<"low above high", \A k \in DOMAIN last.lo : ~Exceeds(last.lo[k], last.hi[k], RMul(eps, RAdd(R1, RAdd(RAbs(last.lo[k]), RAbs(last.hi[k])))))>>,
             <<"evaluation", (shapes /\ finite) => \A q \in DOMAIN t.xs :
                 LET z == Force(Diff(t.xs[q], t.x0))
                     v == Force(EvalTo(E, sx, so, z))
                     m == Force(MagnitudeTo(E, sx, so, z))
                     tol(b) == RMul(Eps(t), RAdd(RDyadic(1, -10), RAdd(m[b], MaxAbs(t.x0))))
                     p == t.r.pts[q]
                 IN Len(p.lo) = Size(so) /\ Len(p.hi) = Size(so) /\
                    \A b \in 1..Size(so) : ~FarApart(p.lo[b], v[b][1], tol(b)) /\ ~FarApart(p.hi[b], v[b][2], tol(b))>>,
             <<"calling the result", \A q \in DOMAIN t.calls : t.calls[q].iv = last.iv /\ t.calls[q].s = so /\ t.calls[q].lo = t.r.pts[q].lo /\ t.calls[q].hi = t.r.pts[q].hi>>,
             <<"lower above upper", \A q \in DOMAIN t.xs : LET p == t.r.pts[q] IN \A b \in DOMAIN p.lo : ~Exceeds(p.lo[b], p.hi[b], RMul(eps, RAdd(R1, RAdd(RAbs(p.lo[b]), RAbs(p.hi[b])))))>>,
             <<"final interval", t.final.s = last.s /\ \A k \in DOMAIN last.lo : SameNumber(t.final.lo[k], last.lo[k], R0) /\ SameNumber(t.final.hi[k], last.hi[k], R0)>>,
             <<"reference point and region", t.x0back = t.x0 /\ t.aback = t.a /\ t.bback = t.b>> >>

-----------------------------------------------------------------------------
(* C14: Taylor coefficients, compared along the directions t.vs.           *)
\* <coefficient i, v^i> for output element b.
Along(t, so, E, i, b, v) == TermRange(E[i + 1], b, MonoValues(v, i))
TaylorClauses(t) ==
  IF t.r.status # "ok" THEN <<Status(t, t.r)>>
  ELSE LET C == Force(Compile(t.P))
           so == C[Len(C)].s
           E == t.r.E
           d == Len(E) - 1
           eps == Force(Tolerance(t, C))
           shapes == \A k \in DOMAIN E : E[k].s = so \o Repeat(Sx(t), k - 1)
           J == Force([q \in DOMAIN t.vs |-> Force(RunJets(C, t.x0, t.vs[q], t.D))])
           \* largest coefficient of degree at most i of any node, along direction q
           M == Force([q \in DOMAIN t.vs |-> Force([i \in 0..t.D |-> MaxOver([k \in DOMAIN J[q] |-> MaxOver([j \in DOMAIN J[q][k] |-> MaxAbs(SubSeq(J[q][k][j], 1, i + 1))])])])])
           tol(q, i, e) == RMul(e, RAdd(R1, M[q][i]))
           Check(q, i, b) ==
             LET v == OutOf(J[q])[b][i + 1]
                 r == IF i <= d THEN Along(t, so, E, i, b, t.vs[q]) ELSE Pt(R0)
             IN IF ~RFinite(v) \/ Overflows(t, M[q][i]) THEN TRUE
                ELSE IF i < t.D \/ i > d \/ Plain(E[d + 1]) THEN ~FarApart(r[1], v, tol(q, i, Eps(t))) /\ ~FarApart(r[2], v, tol(q, i, Eps(t)))
                ELSE (RUndefined(r[1]) \/ ~Exceeds(r[1], v, tol(q, i, eps))) /\ (RUndefined(r[2]) \/ ~Exceeds(v, r[2], tol(q, i, eps)))
       IN << <<"shape", shapes>>,
             <<"interval below the maximum degree", \A k \in 1..Len(E) : k <= t.D => Plain(E[k])>>,
             <<"Taylor coefficient", shapes => \A q \in DOMAIN t.vs : \A i \in 0..t.D : \A b \in 1..Size(so) : Check(q, i, b)>>,
             <<"touches at the center", t.D >= 1 => \A b \in 1..Size(so) :
                 LET v == OutOf(J[1])[b][1] p == t.r.pts[1] IN
                 ~RFinite(v) \/ ~RFinite(p.lo[b]) \/ ~RFinite(p.hi[b]) \/ (~FarApart(p.lo[b], v, tol(1, 0, Eps(t))) /\ ~FarApart(p.hi[b], v, tol(1, 0, Eps(t))))>> >>

-----------------------------------------------------------------------------
(* C15: polynomials are recovered.  r and r2 are for different regions.    *)
PolyClauses(t) ==
  IF ~OK2(t) THEN <<Status(t, t.r), Status(t, t.r2)>>
  ELSE << <<"interval coefficient", \A k \in DOMAIN t.r.E : Plain(t.r.E[k])>>,
          <<"bounds differ", \A q \in DOMAIN t.xs : t.r.pts[q].lo = t.r.pts[q].hi>>,
          <<"depends on the region", Len(t.r.E) = Len(t.r2.E) /\ \A k \in DOMAIN t.r.E : SameCoefs(t.r.E[k], t.r2.E[k], Eps(t))>> >>
       \o TaylorClauses(t)

-----------------------------------------------------------------------------
(* C16: r is computed without propagation, r2 with it.                     *)
PropagateClauses(t) ==
  IF ~OK2(t) THEN << <<"raised only with propagation: " \o t.r2.status, t.r.status # "ok">> >>
  ELSE LET C == Force(Compile(t.P))
           eps == Force(Tolerance(t, C))
           mag == Force(MagnitudeTo(t.r.E, Sx(t), C[Len(C)].s, Far(t)))
           d == Len(t.r.E)
       IN << <<"function outside its bounds", Sound(t, t.r2, C, eps, FALSE)>>,
             <<"lower coefficients", Len(t.r2.E) = d /\ \A k \in 1..(d - 1) : SameCoefs(t.r.E[k], t.r2.E[k], Eps(t))>>,
             <<"looser with propagation", Tighter(t, mag, eps)>> >>

-----------------------------------------------------------------------------
(* C25: r is for the region, r2 for a part of it, and t.ws are the results *)
(* for shrinking regions x0 + h [-1, 1], [h, E], h divided by 4 each time. *)
LastWidth(E) == LET last == E[Len(E)] IN [k \in DOMAIN last.lo |-> RSub(last.hi[k], last.lo[k])]
ShrinkClauses(t) ==
  IF ~OK2(t) THEN << <<"raised for one of two regions", t.r.status = t.r2.status>> >>
  ELSE LET C == Force(Compile(t.P))
           \* (The part is the box between the second and the third point.)
           part == [t EXCEPT !.a = t.xs[2], !.b = t.xs[3]]
           eps == Force(RMax(Tolerance(t, C), Tolerance(part, C)))
           mag == Force(MagnitudeTo(t.r.E, Sx(t), C[Len(C)].s, Far(t)))
           h == t.ws[1].h
           box == [k \in DOMAIN t.x0 |-> <<RSub(t.x0[k], RScale(8, h)), RAdd(t.x0[k], RScale(8, h))>>]
           ranges == Force(RunIntervals(C, box))
           calm == CalmOver(C, ranges, RInt(20))
           \* roundoff of quotients by h^D
           noise(j) == RDiv(RMul(RDyadic(1, -38), RAdd(R1, MaxOver([k \in DOMAIN ranges |-> MaxOver([i \in DOMAIN ranges[k] |-> MagI(ranges[k][i])])]))), RPowI(t.ws[j].h, t.D))
       IN << <<"looser for a smaller region", Tighter(t, mag, eps)>>,
             <<"lower coefficients depend on the region", Len(t.r2.E) = Len(t.r.E) /\ \A k \in 1..(Len(t.r.E) - 1) : SameCoefs(t.r.E[k], t.r2.E[k], Eps(t))>>,
             <<"width does not shrink", (calm /\ Smooth(t.P)) => \A j \in 1..(Len(t.ws) - 1) :
                 LET w == Force(LastWidth(t.ws[j].E)) w2 == Force(LastWidth(t.ws[j + 1].E)) IN
                 \A k \in DOMAIN w : RFinite(w2[k]) /\ ~Exceeds(w2[k], RMul(RRat(2, 5), w[k]), noise(j + 1))>> >>

-----------------------------------------------------------------------------
(* C18: r2 is the result for the same function written in another way.     *)
WrapClauses(t) ==
  IF ~OK2(t) THEN << <<"raised only in one form: " \o t.r.status \o "/" \o t.r2.status, t.r.status = t.r2.status \/ t.mayrefuse>> >>
  ELSE LET C == Force(Compile(t.P))
           eps == Force(Tolerance(t, C))
           d == Len(t.r.E)
       IN << <<"lower coefficients", Len(t.r2.E) = d /\ \A k \in 1..(d - 1) : SameCoefs(t.r.E[k], t.r2.E[k], Eps(t))>>,
             <<"last coefficient", Len(t.r2.E) = d => SameCoefs(t.r.E[d], t.r2.E[d], eps)>> >>

-----------------------------------------------------------------------------
(* C20: r2 is the result for the same function with the activation        *)
(* functions replaced by operations that were registered with the         *)
(* dedicated enclosures.  t.same: a part is itself an activation function. *)
(* A miss is a function outside the language that resembles one of them;   *)
(* t.vals are its values at the points.                                    *)
ActClauses(t) ==
  IF t.kind = "miss"
  THEN << <<"look-alike bounded wrongly", t.r.status = "notimpl" \/ (t.r.status = "ok" /\ \A q \in DOMAIN t.xs : \A b \in DOMAIN t.vals[q] :
              LET v == t.vals[q][b] tol == RMul(Eps(t), RAdd(RInt(4), RAbs(v))) IN ~Exceeds(t.r.pts[q].lo[b], v, tol) /\ ~Exceeds(v, t.r.pts[q].hi[b], tol))>> >>
  ELSE SoundClauses(t) \o (IF t.same THEN <<>> ELSE WrapClauses(t))

Clauses(t) == CASE Prop \in {"C11", "C12"} -> SoundClauses(t)
                [] Prop = "C13" -> FormClauses(t)
                [] Prop = "C14" -> TaylorClauses(t)
                [] Prop = "C15" -> PolyClauses(t)
                [] Prop = "C16" -> PropagateClauses(t)
                [] Prop = "C18" -> WrapClauses(t)
                [] Prop = "C20" -> ActClauses(t)
                [] Prop = "C25" -> ShrinkClauses(t)
=============================================================================
