----------------------------- MODULE GraphPools -----------------------------
(* Pattern/replacement pairs that the graph models are explored with.      *)
EXTENDS GraphEditor

Op(d, i, o) == [d |-> d, i |-> i, o |-> o]
f(a, b) == Op("f", <<a>>, <<b>>)
g(a, b) == Op("g", <<a>>, <<b>>)
h(a, b) == Op("h", <<a>>, <<b>>)
add(a, b, c) == Op("add", <<a, b>>, <<c>>)

\* h(x) = g(f(x)), hh(x) = f(f(x)), p(x) = (f(x), g(f(x))), q(x, y) = add(f(x), y), f2 = f, dup(x) = add(x, x)
Macros ==
  [h |-> [ins |-> <<"1">>, ops |-> <<f("1", "2"), g("2", "3")>>, outs |-> <<"3">>],
   hh |-> [ins |-> <<"1">>, ops |-> <<f("1", "2"), f("2", "3")>>, outs |-> <<"3">>],
   p |-> [ins |-> <<"1">>, ops |-> <<f("1", "2"), g("2", "3")>>, outs |-> <<"2", "3">>],
   q |-> [ins |-> <<"1", "2">>, ops |-> <<f("1", "3"), add("3", "2", "4")>>, outs |-> <<"4">>],
   f2 |-> [ins |-> <<"1">>, ops |-> <<f("1", "2")>>, outs |-> <<"2">>],
   dup |-> [ins |-> <<"1">>, ops |-> <<add("1", "1", "2")>>, outs |-> <<"2">>]]

\* Pairs with equivalent sides.
EquivPairs == <<
  [pat |-> <<f("a", "b")>>,                   rep |-> <<Op("f2", <<"a">>, <<"b">>)>>],
  [pat |-> <<f("a", "b"), g("b", "c")>>,      rep |-> <<h("a", "c")>>],
  [pat |-> <<f("a", "b"), f("b", "c")>>,      rep |-> <<Op("hh", <<"a">>, <<"c">>)>>],
  [pat |-> <<f("a", "b"), g("b", "c")>>,      rep |-> <<Op("p", <<"a">>, <<"b", "c">>)>>],
  [pat |-> <<f("a", "b"), g("b", "c")>>,      rep |-> <<Op("f2", <<"a">>, <<"n">>), g("n", "c")>>],
  [pat |-> <<f("a", "b")>>,                   rep |-> <<f("a", "n"), Op("f2", <<"a">>, <<"b">>)>>],
  [pat |-> <<f("a", "b"), g("c", "d")>>,      rep |-> <<g("c", "d"), f("a", "b")>>],
  [pat |-> <<f("a", "b"), f("a", "c")>>,      rep |-> <<f("a", "b"), f("a", "c")>>],
  [pat |-> <<f("a", "b"), f("c", "d")>>,      rep |-> <<Op("f2", <<"a">>, <<"b">>), Op("f2", <<"c">>, <<"d">>)>>],
  [pat |-> <<f("a", "b"), add("b", "c", "d")>>, rep |-> <<Op("q", <<"a", "c">>, <<"d">>)>>],
  [pat |-> <<add("a", "a", "b")>>,            rep |-> <<Op("dup", <<"a">>, <<"b">>)>>],
  [pat |-> <<h("a", "b")>>,                   rep |-> <<f("a", "n"), g("n", "b")>>],
  [pat |-> <<h("a", "b")>>,                   rep |-> <<f("a", "x"), g("x", "b")>>],
  [pat |-> <<f("a", "b"), f("b", "c"), g("c", "d")>>, rep |-> <<f("a", "n"), h("n", "d")>>],
  [pat |-> <<f("a", "b"), g("b", "c")>>,      rep |-> <<>>],
  [pat |-> <<f("a", "b"), f("b", "c"), f("c", "d")>>, rep |-> <<Op("hh", <<"a">>, <<"c">>), f("c", "d")>>] >>

ASSUME \A k \in DOMAIN EquivPairs : Equivalent(EquivPairs[k].pat, EquivPairs[k].rep, Macros)

\* Pairs whose sides differ: only C22 applies.
OtherPairs == <<
  [pat |-> <<f("a", "b")>>,                   rep |-> <<g("a", "b")>>],
  [pat |-> <<f("a", "b")>>,                   rep |-> <<f("a", "n"), f("n", "b")>>],
  [pat |-> <<g("a", "b"), f("b", "c")>>,      rep |-> <<f("a", "c")>>],
  [pat |-> <<f("a", "b"), f("c", "d")>>,      rep |-> <<add("a", "c", "d")>>],
  [pat |-> <<f("a", "b"), g("a", "c")>>,      rep |-> <<g("a", "b"), f("b", "c")>>],
  [pat |-> <<add("a", "b", "c")>>,            rep |-> <<add("b", "a", "c")>>],
  [pat |-> <<add("a", "b", "c"), f("c", "d")>>, rep |-> <<f("b", "n"), add("n", "a", "d")>>] >>
Pairings == EquivPairs \o OtherPairs
=============================================================================
