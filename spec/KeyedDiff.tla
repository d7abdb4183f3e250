----------------------------- MODULE KeyedDiff -----------------------------
(* DomDiff for elements whose ids are any numbers and whose children may have keys.  Children which all    *)
(* have a key are paired by it, as long as that leaves them in order and puts the new ones at the end;       *)
(* otherwise children are paired by position.  Ids are handed over in an order in which no two elements      *)
(* have the same one; if they only change hands in a circle, one of them gets a spare one for a while.       *)
(* An element is [id, n, key ("": none), k].                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Elements, Spare

RECURSIVE Ids(_)
Ids(x) == {x.id} \cup UNION {Ids(x.k[j]) : j \in 1..Len(x.k)}
RECURSIVE Count(_)
Count(x) == 1 + FoldSeq(LAMBDA c, n : n + Count(c), 0, x.k)
WellNumbered(x) == Cardinality(Ids(x)) = Count(x)

\* a DOM: its elements in document order; u: its place in the document it was in before, or 0 if it is a new one
RECURSIVE Flat(_, _)
Flat(x, d) == <<[id |-> x.id, depth |-> d, n |-> x.n, u |-> 0]>> \o FlattenSeq([j \in 1..Len(x.k) |-> Flat(x.k[j], d + 1)])
At(dom, id) == {p \in 1..Len(dom) : dom[p].id = id}
FirstAt(dom, id) == CHOOSE p \in At(dom, id) : \A q \in At(dom, id) : p <= q
LastBelow(dom, p) == CHOOSE q \in p..Len(dom) : /\ \A r \in (p + 1)..q : dom[r].depth > dom[p].depth
                                           /\ (q = Len(dom) \/ dom[q + 1].depth <= dom[p].depth)
Exec(dom, o) ==
  LET p == FirstAt(dom, o.id)
  IN CASE o.op = "name" -> [dom EXCEPT ![p].n = o.x]
       [] o.op = "id" -> [dom EXCEPT ![p].id = o.x]
       [] o.op = "delete" -> SubSeq(dom, 1, p - 1) \o SubSeq(dom, LastBelow(dom, p) + 1, Len(dom))
       [] o.op = "create" -> LET q == LastBelow(dom, p)
                             IN SubSeq(dom, 1, q) \o <<[id |-> o.x.id, n |-> o.x.n, depth |-> dom[p].depth + 1, u |-> 0]>> \o SubSeq(dom, q + 1, Len(dom))
Op(op, id, x) == [op |-> op, id |-> id, x |-> x]

\* ---- which children belong to each other ----------------------------------------------------------------------
Keyed(x) == \A j \in 1..Len(x.k) : x.k[j].key # ""
\* [kept: <<mine, theirs>>, removed, added]
ByPosition(x, y) ==
  LET n == IF Len(x.k) < Len(y.k) THEN Len(x.k) ELSE Len(y.k)
  IN [kept |-> [j \in 1..n |-> <<x.k[j], y.k[j]>>], removed |-> SubSeq(x.k, n + 1, Len(x.k)), added |-> SubSeq(y.k, n + 1, Len(y.k))]
RECURSIVE Walk(_, _, _)
Walk(mine, theirs, p) ==
  IF mine = <<>> THEN [p EXCEPT !.added = theirs]
  ELSE IF theirs # <<>> /\ theirs[1].key = mine[1].key
  THEN Walk(Tail(mine), Tail(theirs), [p EXCEPT !.kept = Append(@, <<mine[1], theirs[1]>>)])
  ELSE Walk(Tail(mine), theirs, [p EXCEPT !.removed = Append(@, mine[1])])
ByKey(x, y) == Walk(x.k, y.k, [kept |-> <<>>, removed |-> <<>>, added |-> <<>>])
Pairing(x, y) ==
  IF Keyed(x) /\ Keyed(y)
  THEN LET p == ByKey(x, y)
       IN IF \E a \in Range(p.added), r \in Range(p.removed) : a.key = r.key THEN ByPosition(x, y) ELSE p
  ELSE ByPosition(x, y)

\* ---- the instructions ---------------------------------------------------------------------------------------------
RECURSIVE InPlace(_, _), NewIds(_, _), Creation(_, _), Additions(_, _)
InPlace(x, y) == LET p == Pairing(x, y)
                 IN (IF x.n # y.n THEN <<Op("name", x.id, y.n)>> ELSE <<>>)
                    \o [j \in 1..Len(p.removed) |-> Op("delete", p.removed[j].id, 0)]
                    \o FlattenSeq([j \in 1..Len(p.kept) |-> InPlace(p.kept[j][1], p.kept[j][2])])
NewIds(x, y) == LET p == Pairing(x, y)
                IN (IF x.id # y.id THEN {<<x.id, y.id>>} ELSE {})
                   \cup UNION {NewIds(p.kept[j][1], p.kept[j][2]) : j \in 1..Len(p.kept)}
Creation(y, parent) == <<Op("create", parent, [id |-> y.id, n |-> y.n])>> \o FlattenSeq([j \in 1..Len(y.k) |-> Creation(y.k[j], y.id)])
Additions(x, y) == LET p == Pairing(x, y)
                   IN FlattenSeq([j \in 1..Len(p.kept) |-> Additions(p.kept[j][1], p.kept[j][2])])
                      \o FlattenSeq([j \in 1..Len(p.added) |-> Creation(p.added[j], y.id)])

\* ---- one change of the view -----------------------------------------------------------------------------------------
VARIABLES old, new, dom, changes, renames, additions
vars == <<old, new, dom, changes, renames, additions>>
Init == /\ old \in Elements /\ new \in Elements
        /\ dom = [p \in 1..Count(old) |-> [Flat(old, 0)[p] EXCEPT !.u = p]] /\ changes = InPlace(old, new)
        /\ renames = NewIds(old, new) /\ additions = Additions(old, new)
Change == /\ changes # <<>> /\ dom' = Exec(dom, Head(changes)) /\ changes' = Tail(changes) /\ UNCHANGED <<old, new, renames, additions>>
Free(r) == At(dom, r[2]) = {}
Rename == /\ changes = <<>>
          /\ \E r \in renames : Free(r) /\ dom' = Exec(dom, Op("id", r[1], r[2])) /\ renames' = renames \ {r}
          /\ UNCHANGED <<old, new, changes, additions>>
MakeRoom == /\ changes = <<>> /\ renames # {} /\ \A r \in renames : ~Free(r)
            /\ \E r \in renames : dom' = Exec(dom, Op("id", r[1], Spare)) /\ renames' = (renames \ {r}) \cup {<<Spare, r[2]>>}
            /\ UNCHANGED <<old, new, changes, additions>>
Add == /\ changes = <<>> /\ renames = {} /\ additions # <<>> /\ dom' = Exec(dom, Head(additions)) /\ additions' = Tail(additions)
       /\ UNCHANGED <<old, new, changes, renames>>
Next == Change \/ Rename \/ MakeRoom \/ Add
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == changes = <<>> /\ renames = {} /\ additions = <<>>
Became == Over => [p \in 1..Len(dom) |-> [dom[p] EXCEPT !.u = 0]] = Flat(new, 0)
\* what is promised to stay has stayed (ViewIdentity)
V == INSTANCE ViewIdentity
Before(x, j) == FoldSeq(LAMBDA c, n : n + Count(c), 0, SubSeq(x.k, 1, j - 1))
RECURSIVE Stay(_, _, _, _)
Stay(x, i, y, j) == /\ dom[j].u = i
                    /\ \A p \in V!Promised(x, y) : Stay(x.k[p[1]], i + 1 + Before(x, p[1]), y.k[p[2]], j + 1 + Before(y, p[2]))
Stayed == Over => Stay(old, 1, new, 1)
NoSharedIds == \A p, q \in 1..Len(dom) : p # q => dom[p].id # dom[q].id
TargetsExist == /\ changes # <<>> => At(dom, Head(changes).id) # {}
                /\ changes = <<>> => \A r \in renames : At(dom, r[1]) # {}
                /\ changes = <<>> /\ renames = {} /\ additions # <<>> => At(dom, Head(additions).id) # {}
\* one spare id is enough: it is free whenever it is needed
SpareIsFree == ENABLED MakeRoom => At(dom, Spare) = {}
Safe == Became /\ Stayed /\ NoSharedIds /\ TargetsExist /\ SpareIsFree
Ends == <>Over
=============================================================================
