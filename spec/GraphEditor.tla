---------------------------- MODULE GraphEditor ----------------------------
(***************************************************************************)
(* Computation graphs, pattern matching and search-and-replace.            *)
(* (autobound/graph_editor.py; properties C21, C22, C23)                   *)
(*                                                                         *)
(* An operation is [d |-> kind, i |-> inputs, o |-> outputs]; a graph is   *)
(* [ins, outs, ops].  The meaning of a graph is given by Herbrand terms:   *)
(* two graphs with the same terms compute the same outputs under every     *)
(* interpretation of the operations and for every input.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RangeOf(s) == {s[k] : k \in DOMAIN s}
InsOf(ops) == UNION {RangeOf(ops[j].i) : j \in DOMAIN ops}
OutsOf(ops) == UNION {RangeOf(ops[j].o) : j \in DOMAIN ops}
VarsOf(ops) == InsOf(ops) \cup OutsOf(ops)
GraphVars(g) == VarsOf(g.ops) \cup RangeOf(g.ins) \cup RangeOf(g.outs)

Apply(m, v) == IF v \in DOMAIN m THEN m[v] ELSE v
Subs(op, m) == [d |-> op.d, i |-> [k \in DOMAIN op.i |-> Apply(m, op.i[k])],
                            o |-> [k \in DOMAIN op.o |-> Apply(m, op.o[k])]]
SubsAll(ops, m) == [j \in DOMAIN ops |-> Subs(ops[j], m)]

-----------------------------------------------------------------------------
(* Matching. *)

\* m is a match of pat on sub, binding only pairs in can.
IsMatch(m, pat, sub, can) ==
  /\ DOMAIN m = VarsOf(pat)
  /\ \A u \in DOMAIN m : <<u, m[u]>> \in can
  /\ SubsAll(pat, m) = sub

\* The set of all matches, by definition.
Matches(pat, sub, can) == {m \in [VarsOf(pat) -> VarsOf(sub)] : IsMatch(m, pat, sub, can)}

\* The same, constructively: corresponding positions determine the binding.
SameShape(pat, sub) ==
  /\ Len(pat) = Len(sub)
  /\ \A j \in DOMAIN pat : /\ pat[j].d = sub[j].d
                           /\ Len(pat[j].i) = Len(sub[j].i)
                           /\ Len(pat[j].o) = Len(sub[j].o)
Pairs(pat, sub) == UNION {{<<pat[j].i[k], sub[j].i[k]>> : k \in DOMAIN pat[j].i} \cup
                          {<<pat[j].o[k], sub[j].o[k]>> : k \in DOMAIN pat[j].o} : j \in DOMAIN pat}
HasMatch(pat, sub, can) ==
  /\ SameShape(pat, sub)
  /\ LET R == Pairs(pat, sub) IN
       /\ R \subseteq can
       /\ \A p, q \in R : p[1] = q[1] => p[2] = q[2]
TheMatch(pat, sub) ==
  LET R == Pairs(pat, sub) IN [u \in VarsOf(pat) |-> (CHOOSE p \in R : p[1] = u)[2]]

-----------------------------------------------------------------------------
(* Search and replace: a left-to-right scan of the subject.               *)

\* A name that no graph uses.
FreshName(pos, v) == "fresh_" \o ToString(pos) \o "_" \o v

\* Instance of the replacement at position pos, by the bindings m; variables
\* that the replacement defines and the pattern does not have are new.
Instance(rep, m, pos) ==
  LET new == OutsOf(rep) \ DOMAIN m
      mm == [v \in DOMAIN m \cup new |-> IF v \in DOMAIN m THEN m[v] ELSE FreshName(pos, v)]
  IN SubsAll(rep, mm)

\* Occurrence of the pattern at position pos of g.
Slice(g, pos, k) == SubSeq(g.ops, pos, pos + k - 1)
OccursAt(pat, g, pos, can) == /\ pos + Len(pat) - 1 <= Len(g.ops)
                              /\ HasMatch(pat, Slice(g, pos, Len(pat)), can)
\* Reads, before its definition, a variable that the occurrence used to define.
ReadsTooEarly(defined, inst) ==
  \E j \in DOMAIN inst : \E v \in RangeOf(inst[j].i) :
      v \in defined /\ v \notin OutsOf(SubSeq(inst, 1, j - 1))
\* The rest of the graph needs a variable that would disappear.
Needed(g, pos, k, defined, inst) ==
  \E v \in defined \ OutsOf(inst) :
      v \in RangeOf(g.outs) \cup InsOf(SubSeq(g.ops, pos + k, Len(g.ops)))
Removable(pat, rep, g, pos) ==
  LET k == Len(pat)
      occ == Slice(g, pos, k)
      inst == Instance(rep, TheMatch(pat, occ), pos)
      defined == OutsOf(occ)
  IN ~ReadsTooEarly(defined, inst) /\ ~Needed(g, pos, k, defined, inst)

\* One step of the scan, from state <<pos, out>>.
CanRewrite(pat, rep, g, can, pos) == OccursAt(pat, g, pos, can) /\ Removable(pat, rep, g, pos)
RewriteStep(pat, rep, g, pos, out) ==
  <<pos + Len(pat), out \o Instance(rep, TheMatch(pat, Slice(g, pos, Len(pat))), pos)>>
KeepStep(g, pos, out) == <<pos + 1, Append(out, g.ops[pos])>>

RECURSIVE Scan(_, _, _, _, _, _)
Scan(pat, rep, g, can, pos, out) ==
  IF pos > Len(g.ops) THEN out
  ELSE LET st == IF CanRewrite(pat, rep, g, can, pos) THEN RewriteStep(pat, rep, g, pos, out)
                                                      ELSE KeepStep(g, pos, out)
       IN Scan(pat, rep, g, can, st[1], st[2])
Edited(pat, rep, g, can) == Scan(pat, rep, g, can, 1, <<>>)

\* The operation sequences are equal up to the names of variables outside fixed.
EqualUpToNew(spec, code, fixed) ==
  /\ SameShape(spec, code)
  /\ LET R == Pairs(spec, code) IN
       /\ \A p \in R : p[1] \in fixed => p[2] = p[1]
       /\ \A p \in R : p[1] \notin fixed => p[2] \notin fixed
       /\ \A p, q \in R : (p[1] = q[1]) <=> (p[2] = q[2])

-----------------------------------------------------------------------------
(* Well-formedness and meaning.                                           *)

\* Every variable is defined before use (or free), at most once.
WellFormed(ops, outs, free) ==
  /\ \A j \in DOMAIN ops :
       LET before == free \cup OutsOf(SubSeq(ops, 1, j - 1)) IN
       /\ RangeOf(ops[j].i) \subseteq before
       /\ RangeOf(ops[j].o) \cap before = {}
       /\ Cardinality(RangeOf(ops[j].o)) = Len(ops[j].o)
  /\ RangeOf(outs) \subseteq free \cup OutsOf(ops)

\* Terms <<name, k, args>>; a variable that is not defined is its own term.
\* macros interprets an operation kind by a graph.
Term(env, v) == IF v \in DOMAIN env THEN env[v] ELSE <<v, 0, <<>>>>
RECURSIVE EvalOps(_, _, _, _)
EvalOps(ops, k, env, macros) ==
  IF k > Len(ops) THEN env
  ELSE LET op == ops[k]
           args == [a \in DOMAIN op.i |-> Term(env, op.i[a])]
           vals == IF op.d \in DOMAIN macros
                   THEN LET b == macros[op.d]
                            benv == EvalOps(b.ops, 1, [v \in RangeOf(b.ins) |-> args[CHOOSE a \in DOMAIN b.ins : b.ins[a] = v]], macros)
                        IN [a \in DOMAIN op.o |-> Term(benv, b.outs[a])]
                   ELSE [a \in DOMAIN op.o |-> <<op.d, a, args>>]
           new == [v \in RangeOf(op.o) |-> vals[CHOOSE a \in DOMAIN op.o : op.o[a] = v]]
       IN EvalOps(ops, k + 1, new @@ env, macros)
Meaning(ops, outs, macros) ==
  LET env == EvalOps(ops, 1, <<>>, macros) IN [a \in DOMAIN outs |-> Term(env, outs[a])]

\* Pattern and replacement compute the same function: every variable of the
\* pattern that both define has the same meaning in both, the replacement
\* defines nothing else of the pattern, and reads nothing but the pattern's inputs.
Equivalent(pat, rep, macros) ==
  LET common == OutsOf(pat) \cap OutsOf(rep)
      e1 == EvalOps(pat, 1, <<>>, macros)
      e2 == EvalOps(rep, 1, <<>>, macros)
      free == InsOf(pat) \ OutsOf(pat)
  IN /\ \A v \in common : e1[v] = e2[v]
     /\ WellFormed(pat, <<>>, free)
     /\ WellFormed(rep, <<>>, free)
=============================================================================
