---------------------------- MODULE Trace_Graph ----------------------------
(* Checks recorded calls of graph_editor.match and graph_editor.replace.   *)
EXTENDS GraphEditor, TraceBase

AsMap(ps) == [u \in {ps[k][1] : k \in DOMAIN ps} |-> (CHOOSE p \in RangeOf(ps) : p[1] = u)[2]]

MatchClauses(t) ==
  LET can == RangeOf(t.can)
      has == HasMatch(t.pat, t.sub, can)
  IN IF t.status # "ok" THEN << <<"raised", FALSE>> >>
     ELSE << <<"arguments changed", t.same>>,
             <<"match missed", has => ~t.none>>,
             <<"match invented", t.none \/ has>>,
             <<"not a match", t.none \/ IsMatch(AsMap(t.m), t.pat, t.sub, can)>> >>

ReplaceClauses(t) ==
  LET subj == [ins |-> t.ins, outs |-> t.outs, ops |-> t.ops]
      can == RangeOf(t.can)
      fixed == GraphVars(subj)
      spec == Edited(t.pat, t.rep, subj, can)
  IN IF t.status # "ok" THEN << <<"raised", FALSE>> >>
     ELSE IF Prop = "C22" THEN
       << <<"arguments changed", t.same>>,
          <<"inputs, outputs or data changed", t.ins1 = t.ins /\ t.outs1 = t.outs /\ t.data1>>,
          <<"not the edited graph", EqualUpToNew(spec, t.ops1, fixed)>>,
          <<"not terminating or not idle", (~ \E p \in DOMAIN subj.ops : CanRewrite(t.pat, t.rep, subj, can, p)) => t.ops1 = t.ops>> >>
     ELSE
       << <<"ill formed", WellFormed(t.ops, t.outs, RangeOf(t.ins)) /\ t.equiv => WellFormed(t.ops1, t.outs1, RangeOf(t.ins))>>,
          <<"meaning changed", t.equiv => Meaning(t.ops1, t.outs1, t.macros) = Meaning(t.ops, t.outs, t.macros)>> >>
Next == l = 0 /\ Judge(IF Cases[c].kind = "match" THEN MatchClauses(Cases[c]) ELSE ReplaceClauses(Cases[c]))
=============================================================================
