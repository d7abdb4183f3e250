----------------------------- MODULE SmallTrees -----------------------------
(* All elements of a certain size, with decorations from a set: a decoration is [n, a, t, l].            *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE TreesOf(_, _), ForestsOf(_, _)
TreesOf(n, D) == {[n |-> d.n, a |-> d.a, t |-> d.t, l |-> d.l, k |-> f] : d \in D, f \in ForestsOf(n - 1, D)}
ForestsOf(n, D) == IF n = 0 THEN {<<>>}
                   ELSE UNION {{<<x>> \o f : x \in TreesOf(m, D), f \in ForestsOf(n - m, D)} : m \in 1..n}
TreesUpTo(n, D) == UNION {TreesOf(m, D) : m \in 1..n}
D0 == [n |-> "div", a |-> <<>>, t |-> <<>>, l |-> <<>>]
D1 == [n |-> "p", a |-> <<<<"class", "x">>>>, t |-> <<"text">>, l |-> <<<<"go", "click">>>>]
D2 == [n |-> "div", a |-> <<<<"class", "y">>, <<"title", "a+b=c">>>>, t |-> <<"other">>, l |-> <<<<"go", "click">>, <<"typed", "input">>>>]
D3 == [n |-> "p", a |-> <<<<"title", "">>>>, t |-> <<"">>, l |-> <<<<"typed", "input">>>>]
=============================================================================
