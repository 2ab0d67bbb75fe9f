------------------------------ MODULE MC_Inline -----------------------------
(* Inlining of compiled functions, as a state machine.  A system is a main  *)
(* program and two compiled functions g and h; the main program may call    *)
(* both, several times, and g may call h.  Systems are built step by step,  *)
(* then calls are inlined one at a time in any order, also inside g.  In    *)
(* every state each variable is defined once and before it is used, and all *)
(* functions mean what they meant.  With Fresh = FALSE the variables of the *)
(* inlined function are not renamed, which must break this.  Each system is *)
(* emitted together with its inlined main program, for replay.              *)
EXTENDS Integers, Sequences, TraceIO, IOUtils, FiniteSets
CONSTANTS MaxG, MaxMain, Fresh, Shapes
VARIABLES fn, given, phase, next
vars == <<fn, given, phase, next>>

\* Variables are numbers; 0 is a literal.  Operations: s(igmoid), mul, neg, and calls.
Body(ins, eqns, outs) == [ins |-> ins, eqns |-> eqns, outs |-> outs]
Eqn(op, a, o) == [op |-> op, a |-> a, o |-> o]
AllShapes == <<
  Body(<<301>>, <<Eqn("s", <<301>>, <<303>>)>>, <<303>>),
  Body(<<301>>, <<>>, <<301>>),
  Body(<<301>>, <<Eqn("mul", <<301, 0>>, <<303>>)>>, <<303, 301>>),
  Body(<<301>>, <<Eqn("s", <<301>>, <<303>>)>>, <<0, 303>>),
  Body(<<301, 302>>, <<Eqn("mul", <<301, 302>>, <<303>>)>>, <<303>>),
  Body(<<301, 302>>, <<>>, <<302, 301>>),
  Body(<<301, 302>>, <<Eqn("s", <<302>>, <<303>>), Eqn("mul", <<303, 301>>, <<304>>)>>, <<304, 303>>),
  Body(<<301>>, <<Eqn("s", <<301>>, <<303>>), Eqn("s", <<303>>, <<304>>)>>, <<304, 304>>),
  Body(<<301, 302>>, <<Eqn("neg", <<302>>, <<303>>)>>, <<0>>) >>

\* (The quick configuration examines two shapes of h, which depend on the seed.)
SomeShapes == LET s == IF "SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.SEED) ELSE 1 IN {1 + ((s + j) % Len(AllShapes)) : j \in {0, 5}}
Seqs(S, n) == [1..n -> S]
Def(f) == {f.ins[k] : k \in DOMAIN f.ins} \cup UNION {{f.eqns[k].o[j] : j \in DOMAIN f.eqns[k].o} : k \in DOMAIN f.eqns}
Outs(base, n) == [k \in 1..n |-> base + k]
\* The equations that may come next in body f; calls to the functions of C.
Possible(f, base, C) ==
  LET V == Def(f) \cup {0}
      new(n) == Outs(base + 10 * Len(f.eqns) + 10, n)
  IN {Eqn("s", <<v>>, new(1)) : v \in V \ {0}} \cup {Eqn("mul", <<v, w>>, new(1)) : v \in V \ {0}, w \in V}
     \cup UNION {{Eqn(c, a, new(Len(fn[c].outs))) : a \in Seqs(V, Len(fn[c].ins))} : c \in C}

Init == /\ \E k \in Shapes, n \in 1..2 :
             fn = [h |-> AllShapes[k], g |-> Body(Outs(200, n), <<>>, <<>>), main |-> Body(<<101>>, <<>>, <<>>)]
        /\ given = fn /\ phase = "g" /\ next = 1000
AddG == /\ phase = "g" /\ Len(fn.g.eqns) < MaxG
        /\ \E e \in Possible(fn.g, 200, {"h"}) :
             /\ Len(fn.g.eqns) > 0 => e.op = "h"
             /\ fn' = [fn EXCEPT !.g.eqns = Append(@, e)]
        /\ UNCHANGED <<given, phase, next>>
\* Results of g: its last equation's, alone or with an argument, a literal or itself.
EndG == /\ phase = "g"
        /\ LET last == IF fn.g.eqns = <<>> THEN fn.g.ins[Len(fn.g.ins)] ELSE fn.g.eqns[Len(fn.g.eqns)].o[1] IN
           \E o \in {<<last>>, <<fn.g.ins[1], last>>, <<last, 0>>, <<last, last>>} : fn' = [fn EXCEPT !.g.outs = o]
        /\ phase' = "main" /\ UNCHANGED <<given, next>>
\* The main program starts with a call of g; it ends with a negation of one value.
AddMain == /\ phase = "main" /\ Len(fn.main.eqns) < MaxMain
           /\ \E e \in Possible(fn.main, 100, {"g", "h"}) :
                /\ fn.main.eqns = <<>> => e.op = "g"
                /\ fn' = [fn EXCEPT !.main.eqns = Append(@, e)]
           /\ UNCHANGED <<given, phase, next>>
EndMain == /\ phase = "main" /\ fn.main.eqns # <<>>
           /\ LET last == fn.main.eqns[Len(fn.main.eqns)] IN
              \E k \in DOMAIN last.o :
                fn' = [fn EXCEPT !.main.eqns = Append(@, Eqn("neg", <<last.o[k]>>, <<199>>)), !.main.outs = <<199>>]
           /\ phase' = "inline" /\ given' = fn' /\ UNCHANGED next

-----------------------------------------------------------------------------
IsCall(e) == e.op \in {"g", "h"}
Subst(m, v) == IF v \in DOMAIN m THEN m[v] ELSE v
\* The k-th equation of body f, a call of c, replaced by c's equations.
Inlined(f, k, c) ==
  LET e == f.eqns[k]
      inner == c.eqns
      Defs == Def(c) \ {c.ins[j] : j \in DOMAIN c.ins}
      rank(v) == Cardinality({w \in Defs : w < v})
      m == [v \in Def(c) |-> IF v \in Defs THEN (IF Fresh THEN next + rank(v) ELSE v)
                              ELSE e.a[CHOOSE j \in DOMAIN c.ins : c.ins[j] = v]]
      new == [j \in DOMAIN inner |-> Eqn(inner[j].op, [i \in DOMAIN inner[j].a |-> Subst(m, inner[j].a[i])],
                                         [i \in DOMAIN inner[j].o |-> Subst(m, inner[j].o[i])])]
      out == [v \in {e.o[i] : i \in DOMAIN e.o} |-> Subst(m, c.outs[CHOOSE i \in DOMAIN e.o : e.o[i] = v])]
      rest == [j \in 1..(Len(f.eqns) - k) |-> [f.eqns[k + j] EXCEPT !.a = [i \in DOMAIN f.eqns[k + j].a |-> Subst(out, f.eqns[k + j].a[i])]]]
  IN Body(f.ins, SubSeq(f.eqns, 1, k - 1) \o new \o rest, [i \in DOMAIN f.outs |-> Subst(out, f.outs[i])])
Inline == /\ phase = "inline"
          /\ \E w \in {"main", "g"} : \E k \in DOMAIN fn[w].eqns :
               /\ IsCall(fn[w].eqns[k])
               /\ fn' = [fn EXCEPT ![w] = Inlined(fn[w], k, fn[fn[w].eqns[k].op])]
          /\ next' = next + 10 /\ UNCHANGED <<given, phase>>
Flat == phase = "inline" /\ \A k \in DOMAIN fn.main.eqns : ~IsCall(fn.main.eqns[k])
\* The inlined program in the language of module Lang: node 1 is x, node 2 the literal.
Lang ==
  LET pos(v) == IF v = 101 THEN 1 ELSE IF v = 0 THEN 2 ELSE 2 + (CHOOSE k \in DOMAIN fn.main.eqns : fn.main.eqns[k].o = <<v>>)
  IN << [op |-> "x", a |-> <<>>], [op |-> "const", a |-> <<>>, s |-> <<>>, d |-> <<2>>] >>
     \o [k \in DOMAIN fn.main.eqns |-> [op |-> IF fn.main.eqns[k].op = "s" THEN "sigmoid" ELSE fn.main.eqns[k].op,
                                        a |-> [j \in DOMAIN fn.main.eqns[k].a |-> pos(fn.main.eqns[k].a[j])]]]
Finish == /\ Flat /\ phase' = "done" /\ UNCHANGED <<fn, given, next>>
          \* (Other orders of inlining lead to the same system; it is emitted once.)
          /\ IF "CASES" \in DOMAIN IOEnv /\ ~(\E k \in DOMAIN fn.g.eqns : IsCall(fn.g.eqns[k]))
             THEN EmitJson(IOEnv.CASES, [prof |-> "inline", n |-> -1, nodes |-> Lang, fns |-> given]) ELSE TRUE
Next == AddG \/ EndG \/ AddMain \/ EndMain \/ Inline \/ Finish

-----------------------------------------------------------------------------
\* The results of calling a body, as terms.
RECURSIVE Call(_, _, _)
Call(F, name, args) ==
  LET f == F[name]
      Env[k \in 0..Len(f.eqns)] ==
        IF k = 0 THEN [v \in {f.ins[j] : j \in DOMAIN f.ins} \cup {0} |-> IF v = 0 THEN <<"2">> ELSE args[CHOOSE j \in DOMAIN f.ins : f.ins[j] = v]]
        ELSE LET e == f.eqns[k]
                 old == Env[k - 1]
                 A == [j \in DOMAIN e.a |-> old[e.a[j]]]
                 R == IF IsCall(e) THEN Call(F, e.op, A) ELSE << <<e.op>> \o A >>
             IN [v \in DOMAIN old \cup {e.o[j] : j \in DOMAIN e.o} |->
                   IF \E j \in DOMAIN e.o : e.o[j] = v THEN R[CHOOSE j \in DOMAIN e.o : e.o[j] = v] ELSE old[v]]
  IN [j \in DOMAIN f.outs |-> Env[Len(f.eqns)][f.outs[j]]]
Args(name) == SubSeq(<< <<"u">>, <<"w">> >>, 1, Len(fn[name].ins))
\* Each variable is defined once, before it is used.
WF(f) ==
  LET before(k) == {f.ins[j] : j \in DOMAIN f.ins} \cup {0} \cup UNION {{f.eqns[i].o[j] : j \in DOMAIN f.eqns[i].o} : i \in 1..(k - 1)}
  IN /\ \A k \in DOMAIN f.eqns : /\ \A j \in DOMAIN f.eqns[k].a : f.eqns[k].a[j] \in before(k)
                                 /\ \A j \in DOMAIN f.eqns[k].o : f.eqns[k].o[j] \notin before(k)
     /\ \A j \in DOMAIN f.outs : f.outs[j] \in before(Len(f.eqns) + 1)
Ready == phase \in {"inline", "done"}
DefinedOnce == Ready => WF(fn.main) /\ WF(fn.g)
Same == Ready => \A w \in {"main", "g"} : Call(fn, w, Args(w)) = Call(given, w, Args(w))
=============================================================================
