------------------------------ MODULE GraphSim ------------------------------
(* Generator of larger matching and replacement problems, for simulation:  *)
(* a random pattern, a replacement that is equivalent to it (some suffix   *)
(* of the pattern fused into one operation, or the operations renamed) or  *)
(* not, and a subject assembled from instances of the pattern, pieces of   *)
(* it, and unrelated operations.                                           *)
EXTENDS GraphEditor, TraceIO, IOUtils, Randomization, FiniteSetsExt

Kinds == {"f", "g", "k"}
ArityI == [f |-> 1, g |-> 1, k |-> 2]
ArityO == [f |-> 1, g |-> 2, k |-> 1]
Pick(S) == RandomElement(S)
Coin(n) == RandomElement(1..n) = 1

VARIABLES phase, n, pat, rep, macros, equiv, ops, fresh, outs
vars == <<phase, n, pat, rep, macros, equiv, ops, fresh, outs>>

PatIns == InsOf(pat) \ OutsOf(pat)
InsSeq == SetToSeq(PatIns)
Graph == [ins |-> <<"x", "y">>, outs |-> outs, ops |-> ops]
Defined == {"x", "y"} \cup OutsOf(ops)
PName(k) == <<"a", "b", "c", "d", "e", "x", "v1", "v2", "u1", "u2", "u3">>[k]
SName(k) == "v" \o ToString(k)
\* Recent variables are more likely.
PickVar(D) == IF Coin(2) /\ \E k \in DOMAIN ops : TRUE THEN Pick(RangeOf(ops[Len(ops)].o)) ELSE Pick(D)

Init == /\ phase = "pattern" /\ n \in 1..3 /\ pat = <<>> /\ rep = <<>> /\ macros = <<>> /\ equiv = TRUE
        /\ ops = <<>> /\ fresh = 1 /\ outs = <<>>

\* Outputs get new names; inputs are old names or new ones.
PatternOp ==
  /\ phase = "pattern" /\ Len(pat) < n
  /\ \E d \in {Pick(Kinds)} :
     \E used \in {Cardinality(VarsOf(pat))} :
     \E ins \in {[a \in 1..ArityI[d] |-> PName(IF VarsOf(pat) # {} /\ ~Coin(3) THEN Pick(1..used) ELSE used + 1)]} :
        LET all == used + (IF \E a \in DOMAIN ins : ins[a] = PName(used + 1) THEN 1 ELSE 0) IN
        pat' = Append(pat, [d |-> d, i |-> ins, o |-> [b \in 1..ArityO[d] |-> PName(all + b)]])
  /\ UNCHANGED <<phase, n, rep, macros, equiv, ops, fresh, outs>>

\* The first j operations stay (perhaps under another name), the others are fused.
Replacement ==
  /\ phase = "pattern" /\ Len(pat) = n
  /\ \E j \in {Pick(0..n)}, alias \in {Coin(2)}, kind \in {Pick(1..4)} :
     \E keep \in {[k \in 1..j |-> IF alias THEN [pat[k] EXCEPT !.d = "A" \o pat[k].d] ELSE pat[k]]},
        tailouts \in {SetToSeq(OutsOf(SubSeq(pat, j + 1, n)))},
        hide \in {IF Coin(2) THEN "i" ELSE "v"}, allouts \in {Coin(2)} :
     LET avail == SetToSeq(PatIns \cup OutsOf(keep))
         mouts == IF allouts \/ j = n THEN tailouts ELSE <<tailouts[Len(tailouts)]>>
         fused == IF j = n THEN <<>>
                  ELSE << [d |-> "M", i |-> avail, o |-> mouts] >>
         ren == [v \in OutsOf(keep) |-> hide \o v]  \* make intermediate results internal to the replacement
         body == keep \o fused
     IN /\ rep' = IF kind = 1 /\ fused # <<>> THEN SubsAll(keep, ren) \o SubsAll(fused, [v \in OutsOf(keep) |-> hide \o v])
                  ELSE IF kind = 2 /\ n > 1 THEN Reverse(body)
                  ELSE body
        /\ equiv' = ~(kind = 2 /\ n > 1)
        /\ macros' = [M |-> [ins |-> avail, ops |-> SubSeq(pat, j + 1, n), outs |-> mouts],
                      Af |-> [ins |-> <<"1">>, ops |-> <<[d |-> "f", i |-> <<"1">>, o |-> <<"2">>]>>, outs |-> <<"2">>],
                      Ag |-> [ins |-> <<"1">>, ops |-> <<[d |-> "g", i |-> <<"1">>, o |-> <<"2", "3">>]>>, outs |-> <<"2", "3">>],
                      Ak |-> [ins |-> <<"1", "2">>, ops |-> <<[d |-> "k", i |-> <<"1", "2">>, o |-> <<"3">>]>>, outs |-> <<"3">>]]
  /\ phase' = "subject" /\ n' = Pick(3..9) /\ UNCHANGED <<pat, ops, fresh, outs>>

AddInstance ==     \* of the whole pattern or its first operations
  \E j \in {IF Coin(3) THEN Pick(1..Len(pat)) ELSE Len(pat)} :
  \E m \in {[v \in VarsOf(pat) |-> IF v \in PatIns THEN PickVar(Defined)
                                   ELSE SName(fresh + (CHOOSE k \in 1..11 : PName(k) = v))]} :
     /\ ops' = ops \o SubsAll(SubSeq(pat, 1, j), m)
     /\ fresh' = fresh + 11
AddOther ==
  \E d \in {Pick(Kinds)} :
  \E ins \in {[a \in 1..ArityI[d] |-> PickVar(Defined)]} :
     /\ ops' = Append(ops, [d |-> d, i |-> ins, o |-> [b \in 1..ArityO[d] |-> SName(fresh + b)]])
     /\ fresh' = fresh + 2
Subject == /\ phase = "subject" /\ Len(ops) < n
           /\ \E c \in {Coin(2)} : IF c THEN AddInstance ELSE AddOther
           /\ UNCHANGED <<phase, n, pat, rep, macros, equiv, outs>>
Finish == /\ phase = "subject" /\ Len(ops) >= n
          /\ \E late \in {Pick(Defined)}, all \in {Coin(4)} :
               outs' = IF all THEN SetToSeq(Defined) ELSE ops[Len(ops)].o \o <<late>>
          /\ phase' = "emit" /\ UNCHANGED <<n, pat, rep, macros, equiv, ops, fresh>>
Emit == /\ phase = "emit" /\ phase' = "match" /\ UNCHANGED <<n, pat, rep, macros, equiv, ops, fresh, outs>>
        /\ \E drop \in {Pick(GraphVars(Graph))}, some \in {Coin(4)}, dropp \in {Pick(VarsOf(pat))} :
           EmitJson(IOEnv.CASES, [kind |-> "replace", pat |-> pat, rep |-> rep, ins |-> <<"x", "y">>, outs |-> outs, ops |-> ops,
                     can |-> SetToSeq((VarsOf(pat) \X GraphVars(Graph)) \ (IF some THEN {<<dropp, drop>>} ELSE {})),
                     equiv |-> equiv /\ Equivalent(pat, rep, macros), macros |-> macros])
\* Matching problems: slices of the subject, and instances with one change.
EmitMatch == /\ phase = "match" /\ phase' = "done" /\ UNCHANGED <<n, pat, rep, macros, equiv, ops, fresh, outs>>
             /\ \E p \in {Pick(1..Len(ops))} :
                \E sub \in {SubSeq(ops, p, IF Coin(4) \/ p + Len(pat) - 1 > Len(ops) THEN p ELSE p + Len(pat) - 1)} :
                \E m \in {[v \in VarsOf(pat) |-> Pick({"x", "y", "v1", "v2"})]} :
                \E inst \in {SubsAll(pat, m)} :
                \E j \in {Pick(DOMAIN inst)} :
                \E mutant \in {[inst EXCEPT ![j] = CASE Coin(3) -> [@ EXCEPT !.i = Append(@, "x")]
                                                     [] Coin(2) -> [@ EXCEPT !.o[1] = Pick({"x", "y", "v1", "v2"})]
                                                     [] OTHER -> [@ EXCEPT !.i[1] = Pick({"x", "y", "v1", "v2"})]]} :
                \E s \in {Pick({sub, inst, mutant})} :
                \E d1 \in {Pick(VarsOf(pat))} :
                \E d2 \in {Pick({"x", "y", "v1", "v2"})}, some \in {Coin(3)} :
                  EmitJson(IOEnv.CASES, [kind |-> "match", pat |-> pat, sub |-> s,
                          can |-> SetToSeq((VarsOf(pat) \X VarsOf(s)) \ (IF some THEN {<<d1, d2>>} ELSE {}))])
Next == PatternOp \/ Replacement \/ Subject \/ Finish \/ Emit \/ EmitMatch
=============================================================================
