---------------------------- MODULE Trace_Changes ----------------------------
(* Validates recorded histories of an element: at every step, `to` is the element it had to become (the      *)
(* changeset was computed between the one before and this one), and `shown` is what it became.  An           *)
(* element is [id, n, a, t, l, k]; attributes have no order.                                                   *)
EXTENDS ElementTree, TLC, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, shown
vars == <<t, l, shown>>
E == Sessions[t].runs[l]

RECURSIVE Same(_, _)
Same(x, y) == /\ x.id = y.id /\ x.n = y.n /\ x.t = y.t /\ x.l = y.l
              /\ Pairs(x.a) = Pairs(y.a) /\ Len(x.a) = Cardinality(Pairs(y.a))
              /\ Len(x.k) = Len(y.k) /\ \A j \in 1..Len(y.k) : Same(x.k[j], y.k[j])
\* the histories which the changesets are made for
RECURSIVE Ids(_)
Ids(x) == <<x.id>> \o FlattenSeq([j \in 1..Len(x.k) |-> Ids(x.k[j])])
WellNumbered(x) == LET s == Ids(x) IN Cardinality(Range(s)) = Len(s)

TInit == t \in 1..Len(Sessions) /\ l = 1 /\ shown = Sessions[t].first
Step == /\ l <= Len(Sessions[t].runs)
        /\ (WellNumbered(shown) /\ WellNumbered(E.to) /\ Same(E.shown, E.to)) = TRUE
        /\ shown' = E.shown /\ l' = l + 1 /\ UNCHANGED t
TDone == l > Len(Sessions[t].runs) /\ UNCHANGED vars
TSpec == TInit /\ [][Step \/ TDone]_vars
=============================================================================
