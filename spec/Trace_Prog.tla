---------------------------- MODULE Trace_Prog -----------------------------
(***************************************************************************)
(* Property C24: the edited program computes what the subject computes     *)
(* with every leftmost non-overlapping occurrence of the pattern replaced, *)
(* and is well formed.  t.x, t.y are values of the two inputs, t.vals the  *)
(* values of the edited program, t.code its operations (names only).       *)
(***************************************************************************)
EXTENDS Programs, TraceBase

Env(t) == [x |-> t.x, y |-> t.y]
Magnitude(v) == \A j \in DOMAIN v : RFinite(v[j])
Tame(env, big) == \A v \in DOMAIN env : \A j \in DOMAIN env[v] : RFinite(env[v][j]) /\ RLt(RAbs(env[v][j]), big)
Same(u, v, tol) == /\ Len(u) = Len(v)
                   /\ \A j \in DOMAIN u : RFinite(v[j]) /\ ~FarApart(u[j], v[j], tol)
Outputs(P, env) == Force([k \in DOMAIN P.outs |-> Operand(env, P.outs[k])])
\* (A scalar that appears where a vector does is broadcast.)
ProgClauses(t) ==
  \* (Called programs of the pattern and of the subject may be of different precision; they are then different programs.)
  LET P == IF t.mixed THEN t.subj ELSE Force(EditedProgram(t.pat, t.rep, t.subj))
      env == Force(RunOps(P.ops, 1, Env(t)))
      out == Outputs(P, env)
  IN IF t.status # "ok" THEN << <<"raised", FALSE>> >>
     ELSE << <<"arguments changed", t.unchanged>>,
             <<"ill formed", WellFormed(t.code.ops, t.code.outs, RangeOf(t.code.ins)) /\ Len(t.code.ins) = t.nin /\ Len(t.code.outs) = Len(out)>>,
             <<"cannot be evaluated: " \o t.evaluated, t.evaluated = "ok">>,
             <<"wrong result", (t.evaluated = "ok" /\ Tame(env, t.big)) => \A k \in DOMAIN out : Same(out[k], t.vals[k], t.tol)>> >>
Next == l = 0 /\ Judge(ProgClauses(Cases[c]))
=============================================================================
