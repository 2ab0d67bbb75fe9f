----------------------------- MODULE MC_Replace -----------------------------
(* Search and replace as a state machine: a subject graph is built step by *)
(* step (all graphs up to MaxOps operations), then scanned.  In every      *)
(* state of the scan the edited prefix followed by the unseen operations   *)
(* is well formed, and means the same as the subject if the pattern and    *)
(* the replacement do.  Every subject is also written out for replay.      *)
EXTENDS GraphPools, TraceIO, IOUtils
CONSTANTS MaxOps, MaxAdds, Safe

Names == <<"b", "n", "c", "a", "d", "e", "m">>
VARIABLES pr, ops, outs, phase, pos, out
vars == <<pr, ops, outs, phase, pos, out>>
Pair == Pairings[pr]
Graph == [ins |-> <<"x">>, outs |-> outs, ops |-> ops]
Defined == {"x"} \cup OutsOf(ops)
Can == VarsOf(Pair.pat) \X (GraphVars(Graph) \cup {"x"})
Kinds == {Pair.pat[k].d : k \in DOMAIN Pair.pat} \cup {"g"}
Arity(d) == IF d = "add" THEN 2 ELSE 1

Init == pr \in DOMAIN Pairings /\ ops = <<>> /\ outs = <<>> /\ phase = "build" /\ pos = 1 /\ out = <<>>
AddOp == /\ phase = "build" /\ Len(ops) < MaxOps
         /\ \E d \in Kinds :
              /\ d = "add" => Cardinality({k \in DOMAIN ops : ops[k].d = "add"}) < MaxAdds
              /\ \E a \in [1..Arity(d) -> Defined] : ops' = Append(ops, Op(d, a, <<Names[Len(ops) + 1]>>))
         /\ UNCHANGED <<pr, outs, phase, pos, out>>
Start == /\ phase = "build" /\ ops # <<>>
         /\ \E v \in Defined : outs' = IF v = "x" THEN SetToSeq(Defined) ELSE IF v = ops[Len(ops)].o[1] THEN <<v>> ELSE <<ops[Len(ops)].o[1], v>>
         /\ phase' = "scan"
         /\ UNCHANGED <<pr, ops, pos, out>>
         /\ ("CASES" \notin DOMAIN IOEnv) \/
            EmitJson(IOEnv.CASES, [kind |-> "replace", pat |-> Pair.pat, rep |-> Pair.rep, can |-> SetToSeq(Can'),
                                   ins |-> <<"x">>, outs |-> outs', ops |-> ops, equiv |-> pr <= Len(EquivPairs),
                                   macros |-> [k \in {"none"} \cup {j \in DOMAIN Macros : \E q \in DOMAIN Pair.rep : Pair.rep[q].d = j} \cup
                                                              {j \in DOMAIN Macros : \E q \in DOMAIN Pair.pat : Pair.pat[q].d = j} |->
                                                    IF k = "none" THEN Macros.f2 ELSE Macros[k]]])
Here == OccursAt(Pair.pat, Graph, pos, Can) /\ (Safe => Removable(Pair.pat, Pair.rep, Graph, pos))
Rewrite == /\ phase = "scan" /\ pos <= Len(ops) /\ Here
           /\ LET st == RewriteStep(Pair.pat, Pair.rep, Graph, pos, out) IN pos' = st[1] /\ out' = st[2]
           /\ UNCHANGED <<pr, ops, outs, phase>>
Keep == /\ phase = "scan" /\ pos <= Len(ops) /\ ~Here
        /\ LET st == KeepStep(Graph, pos, out) IN pos' = st[1] /\ out' = st[2]
        /\ UNCHANGED <<pr, ops, outs, phase>>
Next == AddOp \/ Start \/ Rewrite \/ Keep
Spec == Init /\ [][Next]_vars

Now == out \o SubSeq(ops, pos, Len(ops))
WF == phase = "scan" => WellFormed(Now, outs, {"x"})
Same == (phase = "scan" /\ pr <= Len(EquivPairs)) => Meaning(Now, outs, Macros) = Meaning(ops, outs, Macros)
Progress == [][phase = "scan" => pos' > pos]_vars
AsFunction == (phase = "scan" /\ pos > Len(ops) /\ Safe) => out = Edited(Pair.pat, Pair.rep, Graph, Can)
=============================================================================
