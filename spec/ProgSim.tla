------------------------------ MODULE ProgSim ------------------------------
(* Generator of program editing problems: called programs, a pattern, a    *)
(* replacement, and a subject assembled from instances of the pattern,     *)
(* pieces of it, instances with one difference (an operation, parameter,   *)
(* literal, constant, operand, or anything inside a called program), and   *)
(* unrelated operations.                                                   *)
EXTENDS Programs, TraceIO, IOUtils, Randomization, FiniteSetsExt

Pick(S) == RandomElement(S)
Coin(n) == RandomElement(1..n) = 1
Kd(op, k) == [op |-> op, k |-> k, body |-> <<>>]
Scalar1 == {Kd("neg", 0), Kd("abs", 0), Kd("exp", 0), Kd("logistic", 0), Kd("ipow", 2), Kd("ipow", 3)}
Vector1 == {Kd("rev", 0), Kd("cumsum", 0), Kd("cumsum", 1)}
Matrix1 == {Kd("sumto", 0), Kd("sumto", 1), Kd("maxto", 0), Kd("maxto", 1), Kd("flip", 0), Kd("flip", 1), Kd("transpose", 0)}
Binary2 == {Kd(o, 0) : o \in {"add", "sub", "mul", "max", "min"}}
Lits == DOMAIN Literals
Consts == DOMAIN Constants
N(p, k) == p \o ToString(k)

VARIABLES phase, n, vec, mat, bodies, pat, rep, subj, fresh
vars == <<phase, n, vec, mat, bodies, pat, rep, subj, fresh>>
Empty == [ins |-> <<>>, outs |-> <<>>, ops |-> <<>>]
Init == /\ phase = "body" /\ n = 1 /\ vec \in BOOLEAN /\ mat \in BOOLEAN /\ bodies = <<>> /\ pat = Empty /\ rep = Empty /\ subj = Empty /\ fresh = 1

Vars(P) == RangeOf(P.ins) \cup OutsOf(P.ops)
\* Recent variables are more likely; literals and (in a called program) constants may be second operands.
Recent(P) == IF P.ops # <<>> /\ Coin(2) THEN Pick(RangeOf(P.ops[Len(P.ops)].o)) ELSE Pick(Vars(P))
Second(P, inner) == IF Coin(2) THEN Pick(IF inner /\ vec /\ ~mat /\ ~Coin(3) THEN Consts ELSE Lits) ELSE Recent(P)
CallKind(B, w) == [op |-> "call", k |-> w, body |-> <<B>>]
\* One more random operation, whose outputs are prefixed by p and numbered from m.
RandomOp(P, p, m, inner, avail) ==
  LET what == Pick(1..10)
      d == IF what <= 3 THEN Pick(IF vec /\ mat THEN (IF Coin(2) THEN Matrix1 ELSE Scalar1) ELSE IF vec THEN Scalar1 \cup Vector1 ELSE Scalar1)
           ELSE IF what <= 6 \/ avail = <<>> THEN Pick(Binary2)
           ELSE avail[Pick(DOMAIN avail)]
  IN [d |-> d,
      i |-> IF d.op \in UnaryKinds THEN <<Recent(P)>>
            ELSE IF d.op # "call" THEN <<Recent(P), Second(P, inner)>>
            ELSE [a \in DOMAIN d.body[1].ins |-> Recent(P)],
      o |-> [a \in 1..(IF d.op = "call" THEN Len(d.body[1].outs) ELSE 1) |-> N(p, m + a)]]
Grow(P, p, inner, avail) == [P EXCEPT !.ops = Append(@, RandomOp(P, p, 100 * Len(P.ops), inner, avail))]
RECURSIVE GrowBy(_, _, _, _, _)
GrowBy(P, k, p, inner, avail) == IF k = 0 THEN P ELSE GrowBy(Force(Grow(P, p, inner, avail)), k - 1, p, inner, avail)
Newest(P) == P.ops[Len(P.ops)].o

\* Without the operations that no output needs.
RECURSIVE LiveFrom(_, _, _)
LiveFrom(ops, k, need) == IF k = 0 THEN <<>>
  ELSE IF RangeOf(ops[k].o) \cap need = {} THEN LiveFrom(ops, k - 1, need)
  ELSE Append(LiveFrom(ops, k - 1, need \cup RangeOf(ops[k].i)), ops[k])
Live(P) == Force([P EXCEPT !.ops = LiveFrom(P.ops, Len(P.ops), RangeOf(P.outs))])

\* Called programs; a later one may call an earlier one.
MakeBody ==
  /\ phase = "body"
  /\ \E ni \in {Pick(1..2)}, len \in {Pick(1..3)}, w \in {Pick({0, 0, 1, 2})}, extra \in {Coin(3)} :
     \E P \in {GrowBy([Empty EXCEPT !.ins = [k \in 1..ni |-> N("p", k)]], len, "q", w = 0, bodies)} :
     \E other \in {Pick(Vars(P))} :
       bodies' = Append(bodies, CallKind(Live([P EXCEPT !.outs = IF extra /\ other # Newest(P)[1] THEN <<Newest(P)[1], other>> ELSE <<Newest(P)[1]>>]), w))
  /\ phase' = IF Len(bodies) = 1 THEN "pattern" ELSE "body"
  /\ UNCHANGED <<n, vec, mat, pat, rep, subj, fresh>>
MakePattern ==
  /\ phase = "pattern"
  /\ \E ni \in {Pick(1..2)}, len \in {Pick({1, 2, 2, 3, 4})} :
     \E P \in {GrowBy([Empty EXCEPT !.ins = [k \in 1..ni |-> N("a", k)]], len, "b", FALSE, bodies)} :
     \E more \in {RandomSubset(Pick(0..1), OutsOf(P.ops))} :
       LET outs == SetToSeq(more \cup {Newest(P)[1]})
           ins == SetToSeq(InsOf(P.ops) \cap RangeOf(P.ins))        \* every input is used
       IN pat' = [ins |-> ins, outs |-> outs, ops |-> P.ops]
  /\ phase' = "replacement"
  /\ UNCHANGED <<n, vec, mat, bodies, rep, subj, fresh>>
MakeReplacement ==
  /\ phase = "replacement"
  /\ \E len \in {Pick({0, 1, 1, 2, 3})} :
     \E P \in {GrowBy([Empty EXCEPT !.ins = [k \in DOMAIN pat.ins |-> N("r", k)]], len, "s", FALSE, bodies)} :
     \E outs \in {[k \in DOMAIN pat.outs |-> IF k = 1 /\ P.ops # <<>> /\ ~Coin(6) THEN Newest(P)[1] ELSE Pick(Vars(P))]} :
       rep' = [P EXCEPT !.outs = outs]
  /\ subj' = [Empty EXCEPT !.ins = <<"x", "y">>]
  /\ phase' = "subject" /\ n' = Pick(2..9)
  /\ UNCHANGED <<vec, mat, bodies, pat, fresh>>

\* Programs with one difference.
OtherLit(v) == Pick(Lits \ {v})
RECURSIVE Mutant(_)
MutateKind(d) ==
  IF d.op = "call" THEN (IF Coin(8) THEN [d EXCEPT !.k = (@ + 1) % 3] ELSE [d EXCEPT !.body = <<Live(Mutant(@[1]))>>])
  ELSE IF d.op \in {"cumsum", "sumto", "maxto", "flip"} /\ ~Coin(4) THEN [d EXCEPT !.k = 1 - @]
  ELSE IF d.op = "ipow" THEN [d EXCEPT !.k = 5 - @]
  ELSE IF d.op \in UnaryKinds THEN Pick(Scalar1 \ {d}) ELSE Pick(Binary2 \ {d})
Change(P, j) ==
  LET op == P.ops[j]
      a == Pick(DOMAIN op.i)
      before == RangeOf(P.ins) \cup OutsOf(SubSeq(P.ops, 1, j - 1))
      v == op.i[a]
  IN IF Coin(2) THEN [P EXCEPT !.ops[j].d = MutateKind(op.d)]
     ELSE IF IsLiteral(v) THEN [P EXCEPT !.ops[j].i[a] = IF Coin(3) THEN Pick(before) ELSE OtherLit(v)]
     ELSE IF IsConstant(op.i[Len(op.i)]) THEN [P EXCEPT !.ops[j].i[2] = Pick(Consts \ {op.i[2]})]
     ELSE IF Len(op.i) = 2 /\ a = 2 /\ op.d.op # "call" /\ Coin(3) THEN [P EXCEPT !.ops[j].i[a] = Pick(Lits)]
     ELSE [P EXCEPT !.ops[j].i[a] = Pick(before)]
\* Calls, and operations with a literal or constant, are more likely to change.
Places(P) == LET S == {j \in DOMAIN P.ops : P.ops[j].d.op = "call" \/ \E a \in DOMAIN P.ops[j].i : IsLiteral(P.ops[j].i[a]) \/ IsConstant(P.ops[j].i[a])}
             IN IF S # {} /\ Coin(2) THEN S ELSE DOMAIN P.ops
Mutant(P) == Force(IF Coin(5) /\ Len(P.outs) = 1 THEN [P EXCEPT !.outs = <<Pick(Vars(P))>>] ELSE Change(P, Pick(Places(P))))

Instantiate(ops) ==
  LET m == [v \in VarsOf(ops) \ Lits |-> IF v \in RangeOf(pat.ins) THEN Recent(subj) ELSE N("v", fresh) \o v]
  IN SubsAll(ops, m)
Add(ops) == subj' = [subj EXCEPT !.ops = @ \o ops] /\ fresh' = fresh + 1
AddInstance == \E o \in {Instantiate(pat.ops)} : Add(o)
AddPiece == \E j \in {Pick(0..Len(pat.ops))} : \E o \in {Instantiate(SubSeq(pat.ops, 1, j))} : Add(o)
AddMutant == \E m \in {Change(pat, Pick(Places(pat)))} : \E o \in {Instantiate(m.ops)} : Add(o)
AddOther == \E o \in {RandomOp(subj, N("w", fresh) \o "_", 0, FALSE, bodies)} : Add(<<o>>)
Subject ==
  /\ phase = "subject" /\ Len(subj.ops) < n
  /\ \E c \in {Pick(1..10)} : IF c <= 4 THEN AddInstance ELSE IF c = 5 THEN AddPiece ELSE IF c <= 8 THEN AddMutant ELSE AddOther
  /\ UNCHANGED <<phase, n, vec, mat, bodies, pat, rep>>
Finish ==
  /\ phase = "subject" /\ Len(subj.ops) >= n
  /\ \E late \in {Pick(Vars(subj))}, mid \in {Pick(OutsOf(subj.ops))}, few \in {Coin(2)} :
       subj' = [subj EXCEPT !.outs = IF few THEN <<Newest(subj)[1]>> ELSE <<Newest(subj)[1], late, mid>>]
  /\ phase' = "emit" /\ UNCHANGED <<n, vec, mat, bodies, pat, rep, fresh>>
Emit ==
  /\ phase = "emit" /\ phase' = "done" /\ UNCHANGED <<n, vec, mat, bodies, pat, rep, subj, fresh>>
  /\ EmitJson(IOEnv.CASES, [pat |-> pat, rep |-> rep, subj |-> subj, vec |-> vec, mat |-> vec /\ mat, occurs |-> Occurs(pat, rep, subj)])
Next == MakeBody \/ MakePattern \/ MakeReplacement \/ Subject \/ Finish \/ Emit
=============================================================================
