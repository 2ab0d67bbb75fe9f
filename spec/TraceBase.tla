----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Skeleton of the trace specifications: the recorded cases are read, each *)
(* case is one behaviour of two states, and the clauses of the properties  *)
(* that the case violates are written out.  A module that extends this one *)
(* defines Verdict(case) == <<sequence of violated clauses, clause count>>.*)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TraceIO, IOUtils, RealField
Cases == LoadJson(IOEnv.TRACE)
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE ""
VARIABLES c, l, bad
TraceInit == c \in 1..Len(Cases) /\ l = 0 /\ bad = <<>>
\* Clauses are <<name, holds>> pairs.
RECURSIVE Failing(_, _)
Failing(cl, k) == IF k > Len(cl) THEN <<>>
                  ELSE IF cl[k][2] THEN Failing(cl, k + 1) ELSE <<cl[k][1]>> \o Failing(cl, k + 1)
Judge(cl) == LET f == Failing(cl, 1) IN
  /\ l' = 1 /\ c' = c /\ bad' = f
  /\ EmitJson(IOEnv.VERDICTS, [c |-> c, bad |-> f, n |-> Len(cl)])
=============================================================================
