------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Sessions with the library (property C19).  The only state that a result *)
(* may depend on is the precision that the user has chosen and the rule of *)
(* an operation of the user that the function applies; everything else     *)
(* that happens in a session (other calls, failures, registrations of      *)
(* other operations, edits of programs, cleared caches) must leave no      *)
(* trace.  Results that were handed out and arguments never change.        *)
(*                                                                         *)
(* Events: [ev |-> "call", key |-> <<...>>] | [ev |-> "fail", k] |         *)
(* [ev |-> "register", k, rule] | [ev |-> "precision", on] |               *)
(* [ev |-> "edit", k] | [ev |-> "clear"]                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* The state of a session, as far as it may matter.
Start == [x64 |-> FALSE, rule |-> 0]
After(s, e) ==
  CASE e.ev = "precision" -> [s EXCEPT !.x64 = e.on]
    [] e.ev = "register" /\ e.k = 0 -> [s EXCEPT !.rule = e.rule]
    [] OTHER -> s
\* What a call's result is a function of.
UsesRule(call) == call.f = 1
Essence(s, call) == <<call, s.x64, IF UsesRule(call) THEN s.rule ELSE 0>>
=============================================================================
