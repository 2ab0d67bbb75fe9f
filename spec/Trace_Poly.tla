----------------------------- MODULE Trace_Poly -----------------------------
(* Checks recorded calls of the polynomial functions (C03).                *)
EXTENDS Poly, TraceBase
RelTol == RDyadic(1, -38)
CONSTANT Samples

AsFormal(ts) == [m \in {ts[k][1] : k \in DOMAIN ts} |-> (CHOOSE x \in {ts[k] : k \in DOMAIN ts} : x[1] = m)[2]]
NonZero(p) == [m \in {m \in DOMAIN p : p[m] # 0} |-> p[m]]
SameFormal(spec, code) == Len(spec) = Len(code) /\ \A k \in DOMAIN spec : NonZero(spec[k]) = AsFormal(code[k])
BilinearTerms(n, m, k) == {<<i, k - i, 1>> : i \in {i \in 0..(n - 1) : k - i >= 0 /\ k - i < m}}

Near(v, w, mag) == ~FarApart(v, w, RMul(RelTol, RAdd(mag, RDyadic(1, -100))))
Mags(p) == [k \in DOMAIN p |-> RAbs(p[k])]
MagsI(p) == [k \in DOMAIN p |-> MagI(p[k])]
AllNear(spec, code, mag) == Len(spec) = Len(code) /\ \A k \in DOMAIN spec : Near(spec[k], code[k], mag[k])
Horner(p, z) == LET RECURSIVE H(_) H(k) == IF k > Len(p) THEN R0 ELSE RAdd(p[k], RMul(z, H(k + 1))) IN H(1)

Pick(p, q) == [k \in DOMAIN p |-> LET w == Weight(q, k) IN RAdd(p[k][1], RMul(w, RSub(p[k][2], p[k][1])))]
Encloses(code, vals, mag) == Len(code) = Len(vals) /\ \A k \in DOMAIN vals :
   LET tol == RMul(RelTol, RAdd(mag[k], RDyadic(1, -100))) IN ~Exceeds(code[k][1], vals[k], tol) /\ ~Exceeds(vals[k], code[k][2], tol)
NearI(x, y, mag) == Near(x[1], y[1], mag) /\ Near(x[2], y[2], mag)

Clauses(t) ==
  IF t.status # "ok" THEN << <<"raised", FALSE>> >>
  ELSE CASE t.kind = "formal_power" ->
         << <<"terms of the power", SameFormal(FormalPow(t.n, t.e), t.r)>>, <<"bookkeeping", t.book>> >>
       [] t.kind = "formal_bilinear" ->
         << <<"terms of the product", Len(t.r) = t.n + t.m - 1 /\ \A k \in 1..Len(t.r) :
                {t.r[k][j] : j \in DOMAIN t.r[k]} = BilinearTerms(t.n, t.m, k - 1)>>,
            <<"bookkeeping", t.book>> >>
       [] t.kind = "formal_eval" ->
         << <<"terms of the value", {t.r[k] : k \in DOMAIN t.r} = {<<i, i, 1>> : i \in 0..(t.n - 1)}>>, <<"bookkeeping", t.book>> >>
       [] t.kind = "tropical_power" ->
         << <<"tropical power", t.r = PolyPow(t.p, t.e, TZero, 0, TAdd, TMul)>> >>
       [] t.kind = "tropical_bilinear" ->
         << <<"tropical product", t.r = PolyMul(t.p, t.q, TZero, TAdd, TMul)>> >>
       [] t.kind = "real_power" ->
         << <<"power", Len(t.r) = Len(t.p) /\ \A j \in DOMAIN t.p : AllNear(RealPow(t.p[j], t.e), t.r[j], RealPow(Mags(t.p[j]), t.e))>> >>
       [] t.kind = "real_bilinear" ->
         << <<"product", Len(t.r) = Len(t.p) /\ \A j \in DOMAIN t.p : AllNear(PolyMul(t.p[j], t.q[j], R0, RAdd, RMul), t.r[j], PolyMul(Mags(t.p[j]), Mags(t.q[j]), R0, RAdd, RMul))>> >>
       [] t.kind = "real_eval" ->
         << <<"value", \A j \in DOMAIN t.p : \A v \in DOMAIN t.r[j] : Near(Horner(t.p[j], t.z[j][1]), t.r[j][v], Horner(Mags(t.p[j]), RAbs(t.z[j][1])))>> >>
       [] t.kind = "interval_power" ->
         LET mag == Force(RealPow(MagsI(t.p), t.e)) IN
         << <<"value outside", \A q \in 1..Samples : Encloses(t.r, RealPow(Pick(t.p, q), t.e), mag)>>,
            <<"not exact", (t.e <= 2 \/ Len(t.p) <= 2) => Len(t.r) = Len(mag) /\ \A k \in DOMAIN mag : NearI(ExactPowCoef(t.p, t.e, k), t.r[k], mag[k])>> >>
       [] t.kind = "interval_bilinear" ->
         LET mag == Force(PolyMul(MagsI(t.p), MagsI(t.q), R0, RAdd, RMul))
             ex == Force(IntervalMul(t.p, t.q)) IN
         << <<"value outside", \A q \in 1..Samples : Encloses(t.r, PolyMul(Pick(t.p, q), Pick(t.q, q + 1), R0, RAdd, RMul), mag)>>,
            <<"not exact", Len(t.r) = Len(mag) /\ \A k \in DOMAIN mag : NearI(ex[k], t.r[k], mag[k])>> >>
Next == l = 0 /\ Judge(Clauses(Cases[c]))
=============================================================================
