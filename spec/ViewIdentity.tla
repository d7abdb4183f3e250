---------------------------- MODULE ViewIdentity ----------------------------
(* What does not change in a view is left alone in the page.  A view is an element [n, a, t, l, key ("":    *)
(* none), k]; the nodes of a document are [u: which node it is, id, w: the attributes which were written to   *)
(* since the last update, tu: its text nodes <<which, times written>>, lw: how often its listeners were        *)
(* changed, k].                                                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Pairs(ps) == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}
\* the children of x and y which belong to each other, as far as that is promised: <<i, j>>
AllKeyed(x) == \A i \in 1..Len(x.k) : x.k[i].key # ""
KeysOf(x) == [i \in 1..Len(x.k) |-> x.k[i].key]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
\* keys of t: those of s which are still there, in order, and then new ones
Tidy(s, t) == LET old == SelectSeq(t, LAMBDA k : k \in Range(s))
                  left == SelectSeq(s, LAMBDA k : k \in Range(t))
              IN old = left /\ SubSeq(t, 1, Len(old)) = old
Promised(x, y) ==
  LET n == IF Len(x.k) < Len(y.k) THEN Len(x.k) ELSE Len(y.k)
  IN IF ~(AllKeyed(x) /\ AllKeyed(y)) THEN {<<i, i>> : i \in 1..n}
     ELSE IF Distinct(KeysOf(x)) /\ Distinct(KeysOf(y)) /\ Tidy(KeysOf(x), KeysOf(y))
     THEN {<<i, j>> \in (1..Len(x.k)) \X (1..Len(y.k)) : x.k[i].key = y.k[j].key}
     ELSE {}

\* the attributes which are not the same in both
Differ(x, y) == {p[1] : p \in (Pairs(x.a) \ Pairs(y.a)) \cup (Pairs(y.a) \ Pairs(x.a))}
\* node d became node e when x became y
Alone(x, y, d, e) ==
  /\ e.u = d.u
  /\ \A i \in 1..Len(e.w) : (e.w[i] = "id" /\ d.id # e.id) \/ e.w[i] \in Differ(x, y)
  /\ x.t = y.t => /\ Len(e.tu) = Len(d.tu)
                  /\ \A i \in 1..Len(e.tu) : e.tu[i][1] = d.tu[i][1] /\ e.tu[i][2] = 0
  /\ x.l = y.l => e.lw = 0
RECURSIVE Stays(_, _, _, _)
Stays(x, y, d, e) ==
  /\ Len(d.k) = Len(x.k) /\ Len(e.k) = Len(y.k)
  /\ x.n = y.n => Alone(x, y, d, e)
  /\ \A p \in Promised(x, y) : Stays(x.k[p[1]], y.k[p[2]], d.k[p[1]], e.k[p[2]])
=============================================================================
