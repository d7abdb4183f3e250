---------------------------- MODULE ElementTree ----------------------------
(* Elements, as an application describes them, and the DOM they stand for.                               *)
(* An element is [n: its tag, a: <<name, value>> pairs, t: <<>> or <<its text>>, l: <<listener, event>>   *)
(* pairs, k: its children].                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Pairs(ps) == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}
TextOf(x) == IF x.t = <<>> THEN "" ELSE x.t[1]

RECURSIVE Size(_), SizeAll(_, _)
SizeAll(xs, n) == IF n = 0 THEN 0 ELSE Size(xs[n]) + SizeAll(xs, n - 1)
Size(x) == 1 + SizeAll(x.k, Len(x.k))
\* ids are given out in document order; the id of the j-th child of an element with the id i
ChildId(x, i, j) == i + 1 + SizeAll(x.k, j - 1)

\* what the browser shows for an element with the id i
RECURSIVE Paint(_, _)
Paint(x, i) == [n |-> x.n, id |-> i, a |-> Pairs(x.a), t |-> TextOf(x), l |-> x.l,
                k |-> [j \in 1..Len(x.k) |-> Paint(x.k[j], ChildId(x, i, j))]]

\* ---- events ----------------------------------------------------------------------------------------------
EventTypes == <<"click", "submit", "input">>
\* the names of the listeners of an element for an event
Heard(ls, e) == LET s == SelectSeq(ls, LAMBDA p : p[2] = e) IN [i \in 1..Len(s) |-> s[i][1]]
\* An event happens to an element and to what it is in, inside out: lss are their listeners.
RECURSIVE HeardOnTheWay(_, _)
HeardOnTheWay(lss, e) == IF lss = <<>> THEN <<>> ELSE Heard(Head(lss), e) \o HeardOnTheWay(Tail(lss), e)
\* the messages which the browser sends then; only those about input have a value
Says(lss, e, v) == LET ns == HeardOnTheWay(lss, e)
                   IN [i \in 1..Len(ns) |-> [junk |-> FALSE, l |-> ns[i], v |-> IF e = "input" THEN <<v>> ELSE <<>>]]

\* the listeners on the way from the element with the number m (in document order, from 0) to the root
RECURSIVE WayUp(_, _, _)
WayUp(x, m, above) ==
  LET here == <<x.l>> \o above
      j == CHOOSE j \in 1..Len(x.k) : ChildId(x, 0, j) <= m /\ (j = Len(x.k) \/ m < ChildId(x, 0, j + 1))
  IN IF m = 0 THEN here ELSE WayUp(x.k[j], m - ChildId(x, 0, j), here)

\* ---- what was seen -----------------------------------------------------------------------------------------
\* A browser was seen to show d (with what is said when each of the events happens to it) for x.
Probe == "probe"
RECURSIVE Shows(_, _, _, _)
Shows(d, x, i, above) ==
  LET lss == <<x.l>> \o above
  IN /\ d.n = x.n /\ d.id = i /\ d.t = TextOf(x) /\ d.x = ""
     /\ Len(d.a) = Cardinality(Pairs(x.a)) /\ Pairs(d.a) = Pairs(x.a)
     /\ d.says = FlattenSeq([e \in 1..3 |-> Says(lss, EventTypes[e], Probe)])
     /\ Len(d.k) = Len(x.k)
     /\ \A j \in 1..Len(x.k) : Shows(d.k[j], x.k[j], ChildId(x, i, j), lss)
=============================================================================
