--------------------------- MODULE RealFieldTest ---------------------------
(* Self test of the arithmetic behind RealField: laws that hold for the    *)
(* reals are never refuted (and brackets are narrow), on a grid.           *)
EXTENDS RealField, TLC, Sequences
Grid == { RDyadic(m, e) : m \in {-7, -3, -1, 0, 1, 3, 5}, e \in {-9, -3, -1, 0, 2} } \cup {RRat(1, 3), RRat(-22, 7), RRat(355, 113)}
tiny == RDyadic(1, -120)
Same(a, b) == ~RLt(a, b) /\ ~RLt(b, a)
Near(a, b) == Same(a, b) /\ ~Exceeds(RAbs(RSub(a, b)), RMul(tiny, RAdd(R1, RAbs(a))), R0)
VARIABLES a, b, c
Init == a \in Grid /\ b \in Grid /\ c \in {RDyadic(3, -1), RRat(-1, 3)}
Next == UNCHANGED <<a, b, c>>
Ring == /\ Near(RAdd(a, b), RAdd(b, a)) /\ Near(RMul(a, RAdd(b, c)), RAdd(RMul(a, b), RMul(a, c)))
        /\ Near(RSub(RAdd(a, b), b), a) /\ Near(RPowI(a, 3), RMul(a, RSq(a)))
        /\ (a # R0 => Near(RMul(RDiv(b, a), a), b))
ExpLog == /\ Near(RExp(RAdd(a, c)), RMul(RExp(a), RExp(c)))
          /\ Near(RLog(RExp(c)), c)
          /\ Near(RDiv(RExp(RLog(RAdd(R1, RSq(a)))), RAdd(R1, RSq(a))), R1)
          /\ (RLt(R0, a) => Near(RLog(RMul(a, RAdd(R1, RSq(b)))), RAdd(RLog(a), RLog(RAdd(R1, RSq(b))))))
          /\ (RLt(R0, a) => Near(RSq(RPow(a, RDyadic(1, -1))), a))
Order == /\ (RLt(a, b) => ~RLt(b, a)) /\ (RLt(a, b) => RLt(RExp(a), RExp(b)) /\ ~RLt(a, RMin(a, b)) /\ RMax(a, b) = b)
         /\ ~RLt(a, RNeg(RAbs(a)))
Known == /\ RLt(RDyadic(11629080, -22), RAdd(RExp(R1), RDyadic(1, -1))) \* sanity: e > 2.27
         /\ ~Exceeds(RAbs(RSub(RExp(R1), RRat(271828182, 100000000))), RRat(1, 100000000), R0)
         /\ ~Exceeds(RAbs(RSub(RLog(RInt(2)), RRat(693147180, 1000000000))), RRat(1, 100000000), R0)
         /\ RUndefined(RLog(RInt(-1))) /\ RUndefined(RDiv(R1, R0))
Laws == Ring /\ ExpLog /\ Order /\ (TRUE => Known)
=============================================================================
