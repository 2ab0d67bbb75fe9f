------------------------------ MODULE MC_Calls ------------------------------
(* Enumerates the calls of module Calls. *)
EXTENDS Calls
VARIABLES call, done
Init == call \in Calls /\ done = FALSE
Next == ~done /\ done' = TRUE /\ call' = call /\ EmitJson(IOEnv.CASES, call)
\* The three verdicts exclude each other, and both refusals and acceptances occur for every function.
Total == Expected(call) \in {"ok", "raise", "any"}
ASSUME \A f \in {t.fn : t \in Calls} : {"ok", "raise"} \subseteq {Expected(t) : t \in {u \in Calls : u.fn = f}}
=============================================================================
