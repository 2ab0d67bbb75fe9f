-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomial algebra (autobound/polynomials.py; C03).  A polynomial is a  *)
(* sequence of coefficients, the first one of degree 0.  Three semirings:  *)
(*  - formal: a coefficient is a function from monomials (exponent vectors *)
(*    over indeterminates) to integers, so that an identity between formal *)
(*    polynomials holds for all values of the indeterminates;              *)
(*  - reals and intervals (IntervalArith);                                 *)
(*  - tropical: integers with max and +.                                   *)
(***************************************************************************)
EXTENDS IntervalArith, FiniteSets, FiniteSetsExt

\* Generic product and power, defined by the sum over index pairs and by repetition.
PolyMul(p, q, zero, Add(_, _), Mul(_, _)) ==
  [k \in 1..(Len(p) + Len(q) - 1) |->
     LET RECURSIVE S(_)
         S(i) == IF i > Len(p) \/ i > k THEN zero
                 ELSE IF k - i + 1 > Len(q) THEN S(i + 1)
                 ELSE Add(Mul(p[i], q[k - i + 1]), S(i + 1))
     IN S(1)]
PolyPow(p, e, zero, one, Add(_, _), Mul(_, _)) ==
  LET RECURSIVE W(_)
      W(k) == IF k = 0 THEN <<one>> ELSE PolyMul(Force(W(k - 1)), p, zero, Add, Mul)
  IN W(e)

\* Formal coefficients over n indeterminates.
Mono(n, j) == [x \in 1..n |-> IF x = j THEN 1 ELSE 0]
FZero == [m \in {} |-> 0]
FOne(n) == [m \in {[x \in 1..n |-> 0]} |-> 1]
FVar(n, j) == [m \in {Mono(n, j)} |-> 1]
FAt(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
FAdd(p, q) == [m \in DOMAIN p \cup DOMAIN q |-> FAt(p, m) + FAt(q, m)]
FMul(p, q) ==
  LET V(u, v) == [x \in DOMAIN u |-> u[x] + v[x]]
      D == {V(u, v) : u \in DOMAIN p, v \in DOMAIN q}
  IN [m \in D |-> MapThenSumSet(LAMBDA u : LET v == [x \in DOMAIN u |-> m[x] - u[x]] IN IF v \in DOMAIN q THEN p[u] * q[v] ELSE 0, DOMAIN p)]
FormalPoly(n) == [j \in 1..n |-> FVar(n, j)]
FormalPow(n, e) == PolyPow(FormalPoly(n), e, FZero, FOne(n), FAdd, FMul)

\* The multinomial theorem gives the same.
Fact(k) == LET RECURSIVE F(_) F(j) == IF j = 0 THEN 1 ELSE j * F(j - 1) IN F(k)
Exponents(n, e, i) == {u \in [1..n -> 0..e] : MapThenSumSet(LAMBDA x : u[x], 1..n) = e /\ MapThenSumSet(LAMBDA x : (x - 1) * u[x], 1..n) = i}
Multinomial(u, e) == LET RECURSIVE D(_, _) D(S, r) == IF S = {} THEN r ELSE LET x == CHOOSE x \in S : TRUE IN D(S \ {x}, r \div Fact(u[x])) IN D(DOMAIN u, Fact(e))
MultinomialPow(n, e) == [k \in 1..((n - 1) * e + 1) |-> [u \in Exponents(n, e, k - 1) |-> Multinomial(u, e)]]

\* Tropical.
TZero == -1000000
TAdd(a, b) == IF a >= b THEN a ELSE b
TMul(a, b) == IF a = TZero \/ b = TZero THEN TZero ELSE a + b

\* Reals, and intervals with operands [lo, hi].
RealPow(p, e) == PolyPow(p, e, R0, R1, RAdd, RMul)
IntervalMul(p, q) == PolyMul(p, q, Pt(R0), AddI, MulI)
\* The smallest interval for coefficient k (from 1) of p^e, if every monomial's variables occur in no other monomial.
MonoRange(p, u, e) ==
  LET RECURSIVE Pr(_) Pr(x) == IF x > Len(p) THEN Pt(R1) ELSE MulI(PowI(p[x], u[x]), Pr(x + 1))
  IN ScaleI(RInt(Multinomial(u, e)), Pr(1))
ExactPowCoef(p, e, k) == LET E == Exponents(Len(p), e, k - 1)
                             RECURSIVE S(_) S(T) == IF T = {} THEN Pt(R0) ELSE LET u == CHOOSE u \in T : TRUE IN AddI(MonoRange(p, u, e), S(T \ {u}))
                         IN S(E)
=============================================================================
