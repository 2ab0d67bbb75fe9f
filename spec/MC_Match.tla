------------------------------ MODULE MC_Match ------------------------------
(* Matching, for every pair of short operation sequences (up to renaming): *)
(* the constructive rule finds a match exactly if there is one, and there  *)
(* is at most one.  Every pair is also written out for replay.             *)
EXTENDS GraphEditor, TraceIO, IOUtils
CONSTANTS Shapes        \* sequences of <<kind, number of inputs, number of outputs>>

Positions(sh) == LET RECURSIVE N(_) N(k) == IF k = 0 THEN 0 ELSE N(k-1) + sh[k][2] + sh[k][3] IN N(Len(sh))
\* Restricted growth strings of length n: all ways to share variables.
RECURSIVE Growth(_)
Growth(n) == IF n = 0 THEN {<<>>}
             ELSE UNION {{Append(s, v) : v \in 1..(1 + Cardinality(RangeOf(s)))} : s \in Growth(n - 1)}
Build(sh, names, prefix) ==
  LET RECURSIVE At(_) At(k) == IF k = 1 THEN 0 ELSE At(k-1) + sh[k-1][2] + sh[k-1][3] IN
  [k \in DOMAIN sh |-> [d |-> sh[k][1],
                        i |-> [a \in 1..sh[k][2] |-> prefix \o ToString(names[At(k) + a])],
                        o |-> [a \in 1..sh[k][3] |-> prefix \o ToString(names[At(k) + sh[k][2] + a])]]]
Sequences0(S, prefix) == UNION {{Build(S[k], n, prefix) : n \in Growth(Positions(S[k]))} : k \in DOMAIN S}

VARIABLES pat, sub, can, done
vars == <<pat, sub, can, done>>
Full == VarsOf(pat) \X VarsOf(sub)
\* Binding restrictions: everything, or one forbidden pair that the first positions would need.
Init == /\ pat \in Sequences0(Shapes, "u") /\ sub \in Sequences0(Shapes, "v")
        /\ can = {} /\ done = FALSE
Restrictions == {Full} \cup {Full \ {p} : p \in {<<"u1", "v1">>, <<"u2", "v1">>, <<"u2", "v2">>} \cap Full}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<pat, sub>>
        /\ can' \in Restrictions
        /\ ("CASES" \notin DOMAIN IOEnv) \/ EmitJson(IOEnv.CASES, [kind |-> "match", pat |-> pat, sub |-> sub, can |-> SetToSeq(can')])
Sound == done => (HasMatch(pat, sub, can) <=> Matches(pat, sub, can) # {})
Unique == done => Cardinality(Matches(pat, sub, can)) <= 1
Found == (done /\ HasMatch(pat, sub, can)) => Matches(pat, sub, can) = {TheMatch(pat, sub)}
Shapes1 == << <<>>, << <<"f", 1, 1>> >>, << <<"f", 2, 1>> >>, << <<"f", 1, 2>> >>, << <<"f", 0, 1>> >>, << <<"f", 0, 0>> >>,
              << <<"f", 1, 1>>, <<"f", 1, 1>> >>, << <<"f", 1, 1>>, <<"g", 1, 1>> >>, << <<"g", 1, 1>>, <<"f", 1, 1>> >> >>
Shapes2 == Shapes1 \o << << <<"f", 2, 1>>, <<"g", 1, 1>> >>, << <<"g", 2, 1>>, <<"f", 1, 1>> >> >>
=============================================================================
