------------------------------ MODULE MC_Poly ------------------------------
(* The expansion over partitions that the implementation uses equals       *)
(* repeated multiplication, as an identity between formal polynomials, for *)
(* all lengths and exponents in the bounds.                                *)
EXTENDS Poly
CONSTANTS MaxLen, MaxExp
VARIABLES n, e, acc
\* acc is computed by one multiplication per step.
Init == n \in 1..MaxLen /\ e = 0 /\ acc = <<FOne(n)>>
Next == e < MaxExp /\ e' = e + 1 /\ n' = n /\ acc' = PolyMul(acc, FormalPoly(n), FZero, FAdd, FMul)
Same == \A k \in DOMAIN acc : acc[k] = MultinomialPow(n, e)[k]
Degree == Len(acc) = (n - 1) * e + 1
=============================================================================
