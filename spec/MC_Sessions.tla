---------------------------- MODULE MC_Sessions -----------------------------
(***************************************************************************)
(* A library that remembers earlier results, as a state machine: a call    *)
(* looks its key up in the memory before it computes anything.  The key    *)
(* consists of all aspects of the call and of the session except one       *)
(* (missing).  With missing = "none" a call always gives its essence       *)
(* (property C19); every other design breaks it, and the shortest sessions *)
(* that show it are emitted, for replay: two calls that differ in exactly  *)
(* one respect, or with one event between them that changes one.           *)
(***************************************************************************)
EXTENDS Sessions, TraceIO, IOUtils
CONSTANTS NumF, Missings
Aspects == {"f", "D", "prop", "x", "region", "dtype", "x64", "rule"}
VARIABLES missing, memo, s, events, result, shown
vars == <<missing, memo, s, events, result, shown>>

Nothing == <<"nothing">>
Key(st, d) == [q \in Aspects \ {missing} |->
                 CASE q = "x64" -> <<"x64", st.x64>> [] q = "rule" -> <<"rule", IF UsesRule(d) THEN st.rule ELSE 0>> [] OTHER -> <<q, d[q]>>]
\* What the result of a call is a function of (the form of the call does not matter).
Outcome(st, d) == <<[q \in Aspects \ {"x64", "rule"} |-> d[q]], st.x64, IF UsesRule(d) THEN st.rule ELSE 0>>

Base == {[f |-> f, D |-> 1, prop |-> p, x |-> x, region |-> 1, form |-> o, dtype |-> "own", as |-> "numpy"] :
           f \in 1..NumF, p \in BOOLEAN, x \in {1, 4}, o \in {"new", "held", "jit"}}
Changes(d) == {d} \cup {[d EXCEPT !.D = k] : k \in {0, 2}} \cup {[d EXCEPT !.prop = ~@]} \cup {[d EXCEPT !.x = k] : k \in {2, 3, 5}}
              \cup {[d EXCEPT !.region = k] : k \in {2, 3}} \cup {[d EXCEPT !.dtype = "f32"]} \cup {[d EXCEPT !.f = 1 + (@ % NumF)]}
Between == {[ev |-> "precision", on |-> TRUE], [ev |-> "register", k |-> 0, rule |-> 2]}

Init == /\ missing \in Missings
        /\ memo = [k \in {} |-> Nothing] /\ s = [Start EXCEPT !.rule = 1] /\ result = Nothing /\ shown = FALSE
        /\ events = << [ev |-> "precision", on |-> FALSE], [ev |-> "register", k |-> 0, rule |-> 1] >>
Do(d) == LET k == Key(s, d) IN
  /\ result' = IF k \in DOMAIN memo THEN memo[k] ELSE Outcome(s, d)
  /\ memo' = IF k \in DOMAIN memo THEN memo ELSE [j \in DOMAIN memo \cup {k} |-> IF j = k THEN Outcome(s, d) ELSE memo[j]]
  /\ events' = Append(events, [ev |-> "call", call |-> d])
First == /\ Len(events) = 2 /\ \E d \in Base : Do(d)
         /\ UNCHANGED <<missing, s, shown>>
Then == /\ Len(events) = 3 /\ \E e \in Between : events' = Append(events, e) /\ s' = After(s, e)
        /\ UNCHANGED <<missing, memo, result, shown>>
Second == /\ Len(events) = 3 \/ (Len(events) = 4 /\ events[4].ev # "call")
          /\ \E d \in IF Len(events) = 3 THEN Changes(events[3].call) ELSE {events[3].call} : Do(d)
          /\ UNCHANGED <<missing, s, shown>>
Wrong == result # Nothing /\ Len(events) > 3 /\ events[Len(events)].ev = "call" /\ result # Outcome(s, events[Len(events)].call)
Show == /\ Wrong /\ ~shown /\ shown' = TRUE /\ UNCHANGED <<missing, memo, s, events, result>>
        /\ IF "CASES" \in DOMAIN IOEnv THEN EmitJson(IOEnv.CASES, [missing |-> missing, events |-> events]) ELSE TRUE
Next == First \/ Then \/ Second \/ Show
FunctionOfEssence == missing = "none" => ~Wrong
\* (In the configuration that must fail; all designs with an incomplete key do.)
NeverWrong == ~Wrong
=============================================================================
