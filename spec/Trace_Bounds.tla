---------------------------- MODULE Trace_Bounds ----------------------------
(* Judges recorded results with the clauses of module Bounds. *)
EXTENDS Bounds
Next == l = 0 /\ Judge(Clauses(Cases[c]))
=============================================================================
