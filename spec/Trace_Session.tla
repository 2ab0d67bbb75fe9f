--------------------------- MODULE Trace_Session ----------------------------
(***************************************************************************)
(* A recorded session is a behaviour: the variables are those of Sessions, *)
(* and the digests of the results handed out so far.  Every event of the   *)
(* record must be a step that Sessions allows.  t.first is the table of    *)
(* results of calls made first in a fresh process.                         *)
(***************************************************************************)
EXTENDS Sessions, TraceBase
VARIABLES s, held
Init == TraceInit /\ s = Start /\ held = <<>>
\* The result that a call must have: t.first lists [call, x64, rule, result].
First(t, e) == LET m == SelectSeq(t.first, LAMBDA r : <<r.call, r.x64, r.rule>> = Essence(s, e.call)) IN m[1].result
Clauses(t, e) ==
  << <<"an earlier result changed", e.before = held>>,
     <<"an argument changed", e.args>>,
     <<"depends on the history", e.ev = "call" => e.result = First(t, e)>>,
     <<"failure not raised", e.ev = "fail" => e.result = "raised">> >>
Step == LET t == Cases[c] e == t.events[l + 1] IN
  /\ l < Len(t.events)
  /\ l' = l + 1 /\ c' = c
  /\ bad' = bad \o Failing(Clauses(t, e), 1)
  /\ s' = After(s, e)
  /\ held' = IF e.ev = "call" THEN Append(held, e.coefs) ELSE held
Stop == LET t == Cases[c] IN
  /\ l = Len(t.events) /\ l' = l + 1 /\ UNCHANGED <<c, bad, s, held>>
  /\ EmitJson(IOEnv.VERDICTS, [c |-> c, bad |-> bad, n |-> 4 * Len(t.events)])
Next == Step \/ Stop
=============================================================================
