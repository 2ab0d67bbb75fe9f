----------------------------- MODULE SessionSim -----------------------------
(* Generator of sessions: few functions, calls that differ in one respect  *)
(* from earlier ones, repetitions, and everything that may come between.   *)
EXTENDS Sessions, TraceIO, IOUtils, Randomization

Pick(S) == RandomElement(S)
Coin(n) == RandomElement(1..n) = 1
NumF == 28  NumFail == 12  NumEdit == 3  NumOps == 4  NumRules == 3
Length == 18

VARIABLES s, events, favs, done
vars == <<s, events, favs, done>>
Init == s = Start /\ events = <<>> /\ favs = <<>> /\ done = FALSE
RandomCall ==
  [f |-> IF Coin(6) THEN Pick(1..NumF) ELSE favs[Pick(1..2)], D |-> Pick({0, 1, 1, 2, 3}), prop |-> Coin(3), x |-> Pick(1..6), region |-> Pick(1..3),
   form |-> Pick({"new", "new", "held", "held", "held", "jit"}), dtype |-> Pick({"own", "own", "f32"}), as |-> Pick({"numpy", "jax", "list"})]
\* Functions from 23 on come in pairs that differ in the values of an array only.
Twin(f) == IF f < 23 THEN f ELSE IF f % 2 = 1 THEN f + 1 ELSE f - 1
Change(d) ==
  LET q == IF d.f >= 23 /\ Coin(2) THEN 0 ELSE Pick(1..7) IN
  CASE q = 0 -> [d EXCEPT !.f = Twin(@)]
    [] q = 1 -> [d EXCEPT !.D = Pick(0..3)]
    [] q = 2 -> [d EXCEPT !.prop = ~@]
    [] q = 3 -> [d EXCEPT !.x = Pick(1..6)]
    [] q = 4 -> [d EXCEPT !.region = Pick(1..3)]
    [] q = 5 -> [d EXCEPT !.form = Pick({"new", "held", "held", "jit"})]
    [] q = 6 -> [d EXCEPT !.dtype = IF @ = "own" THEN "f32" ELSE "own"]
    [] OTHER -> d
SetMax0(S) == CHOOSE m \in S : \A k \in S : k <= m
Calls == {k \in DOMAIN events : events[k].ev = "call"}
NextCall == IF Calls # {} /\ ~Coin(4) THEN Change(events[IF Coin(2) THEN SetMax0(Calls) ELSE Pick(Calls)].call) ELSE RandomCall
RandomEvent ==
  LET q == Pick(1..20) IN
  CASE q <= 11 -> [ev |-> "call", call |-> NextCall]
    [] q <= 13 -> [ev |-> "fail", k |-> Pick(1..NumFail), f |-> favs[Pick(1..2)]]
    [] q <= 15 -> [ev |-> "register", k |-> Pick(0..NumOps), rule |-> Pick(1..NumRules)]
    [] q <= 17 -> [ev |-> "precision", on |-> ~s.x64]
    [] q = 18 -> [ev |-> "edit", k |-> Pick(1..NumEdit)]
    [] q = 19 -> [ev |-> "clear"]
    [] OTHER -> [ev |-> "call", call |-> RandomCall]
\* (TLC computes the initial states only once.)
Choose == favs = <<>> /\ (\E a \in {Pick(1..NumF)}, b \in {Pick(IF Coin(2) THEN 1..NumF ELSE 23..NumF)} : favs' = <<a, b>>) /\ UNCHANGED <<s, events, done>>
Event == /\ ~done /\ favs # <<>> /\ Len(events) < Length
         /\ \E e \in {RandomEvent} : events' = Append(events, e) /\ s' = After(s, e)
         /\ UNCHANGED <<favs, done>>
Finish == /\ ~done /\ Len(events) = Length /\ done' = TRUE /\ UNCHANGED <<s, events, favs>>
          /\ EmitJson(IOEnv.CASES, [events |-> events])
Next == Choose \/ Event \/ Finish
=============================================================================
