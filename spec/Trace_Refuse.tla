---------------------------- MODULE Trace_Refuse ----------------------------
(***************************************************************************)
(* Property C17: an operation without rule is refused exactly if it sees a *)
(* value that depends on the input; an operation of the user is bounded    *)
(* with the rule that was registered last; invalid arguments are refused.  *)
(***************************************************************************)
EXTENDS Bounds, Calls
\* Nodes that apply an operation without rule to a value that depends on x.
Refusers(t) == LET dep == Force(Dependent(t.P)) IN {k \in DOMAIN t.P.nodes : t.P.nodes[k].op \in {"unsup", "user"} /\ dep[t.P.nodes[k].a[1]]}
\* (x^0 depends on x in form only: either outcome is right.)
Must(t) == LET dg == Force(Degrees(t.P)) IN \E k \in Refusers(t) : dg[t.P.nodes[k].a[1]] # 0
ProgramClauses(t) ==
  IF Must(t) THEN << <<"not refused: " \o t.r.status, t.r.status = "notimpl">> >>
  ELSE IF Refusers(t) # {} THEN <<>>
  ELSE SoundClauses(t)
Pair(t, r, s) == WrapClauses([t EXCEPT !.r = r, !.r2 = s])
UserClauses(t) ==
  << <<"bounded without a rule", Must(t) => t.r0.status = "notimpl">>,
     <<"refused in spite of its rule: " \o t.r.status, t.r.status = "ok" \/ (t.mayrefuse /\ t.r.status = "notimpl")>> >>
  \o Pair(t, t.r, t.r2) \o Pair(t, t.r3, t.r4)
CallClauses(t) ==
  LET e == Expected(t) IN
  << <<"accepted invalid arguments", e = "raise" => t.status # "ok">>,
     <<"refused valid arguments: " \o t.status, e = "ok" => t.status = "ok">> >>
RefuseClauses(t) == CASE t.kind = "program" -> ProgramClauses(t)
                      [] t.kind = "user" -> UserClauses(t)
                      [] t.kind = "call" -> CallClauses(t)
Next == l = 0 /\ Judge(RefuseClauses(Cases[c]))
=============================================================================
