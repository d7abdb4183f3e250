------------------------------ MODULE DomDiff ------------------------------
(* How a browser is brought from one view to the next: instructions which address elements by their ids,  *)
(* one after the other.  What is shown in the end is the new view, whatever the two are; on the way no two  *)
(* elements have the same id (the first one would get the instructions for both), and every instruction     *)
(* finds its element.                                                                                        *)
EXTENDS ElementTree

CONSTANTS Trees, Starts    \* the views, and the ids they may start from

\* ---- a DOM: its elements in document order, [id, depth, n, a, t, l] ------------------------------------------
Node(x, i, d) == [id |-> i, depth |-> d, n |-> x.n, a |-> Pairs(x.a), t |-> TextOf(x), l |-> x.l]
RECURSIVE Flat(_, _, _)
Flat(x, i, d) == <<Node(x, i, d)>> \o FlattenSeq([j \in 1..Len(x.k) |-> Flat(x.k[j], ChildId(x, i, j), d + 1)])

At(dom, id) == {p \in 1..Len(dom) : dom[p].id = id}
FirstAt(dom, id) == CHOOSE p \in At(dom, id) : \A q \in At(dom, id) : p <= q
\* the last element below the p-th one
LastBelow(dom, p) == CHOOSE q \in p..Len(dom) : /\ \A r \in (p + 1)..q : dom[r].depth > dom[p].depth
                                           /\ (q = Len(dom) \/ dom[q + 1].depth <= dom[p].depth)
Exec(dom, o) ==
  LET p == FirstAt(dom, o.id)
  IN CASE o.op = "name" -> [dom EXCEPT ![p].n = o.x]
       [] o.op = "attributes" -> [dom EXCEPT ![p].a = o.x]
       [] o.op = "text" -> [dom EXCEPT ![p].t = o.x]
       [] o.op = "listeners" -> [dom EXCEPT ![p].l = o.x]
       [] o.op = "id" -> [dom EXCEPT ![p].id = o.x]
       [] o.op = "delete" -> SubSeq(dom, 1, p - 1) \o SubSeq(dom, LastBelow(dom, p) + 1, Len(dom))
       [] o.op = "create" -> LET q == LastBelow(dom, p)
                             IN SubSeq(dom, 1, q) \o <<[o.x EXCEPT !.depth = dom[p].depth + 1]>> \o SubSeq(dom, q + 1, Len(dom))

\* ---- the instructions from the view x, with ids from i, to the view y, with ids from j ---------------------------
Op(op, id, x) == [op |-> op, id |-> id, x |-> x]
Kept(x, y) == IF Len(x.k) < Len(y.k) THEN Len(x.k) ELSE Len(y.k)
\* what changes in the elements which stay, and the elements which go
RECURSIVE InPlace(_, _, _)
InPlace(x, i, y) ==
     (IF x.n # y.n THEN <<Op("name", i, y.n)>> ELSE <<>>)
  \o (IF Pairs(x.a) # Pairs(y.a) THEN <<Op("attributes", i, Pairs(y.a))>> ELSE <<>>)
  \o (IF TextOf(x) # TextOf(y) THEN <<Op("text", i, TextOf(y))>> ELSE <<>>)
  \o (IF x.l # y.l THEN <<Op("listeners", i, y.l)>> ELSE <<>>)
  \o [c \in 1..(Len(x.k) - Kept(x, y)) |-> Op("delete", ChildId(x, i, Kept(x, y) + c), 0)]
  \o FlattenSeq([c \in 1..Kept(x, y) |-> InPlace(x.k[c], ChildId(x, i, c), y.k[c])])
\* the ids which change, as <<old, new>>
RECURSIVE NewIds(_, _, _, _)
NewIds(x, i, y, j) == (IF i # j THEN {<<i, j>>} ELSE {})
                      \cup UNION {NewIds(x.k[c], ChildId(x, i, c), y.k[c], ChildId(y, j, c)) : c \in 1..Kept(x, y)}
\* an element and all below it
RECURSIVE Creation(_, _, _)
Creation(y, j, parent) == <<Op("create", parent, Node(y, j, 0))>>
                          \o FlattenSeq([c \in 1..Len(y.k) |-> Creation(y.k[c], ChildId(y, j, c), j)])
\* the new elements
RECURSIVE Additions(_, _, _)
Additions(x, y, j) == FlattenSeq([c \in 1..Kept(x, y) |-> Additions(x.k[c], y.k[c], ChildId(y, j, c))])
                      \o FlattenSeq([c \in 1..(Len(y.k) - Kept(x, y)) |-> Creation(y.k[Kept(x, y) + c], ChildId(y, j, Kept(x, y) + c), j)])

\* ---- one change of the view -------------------------------------------------------------------------------------
VARIABLES old, new, from, to, dom, changes, renames, additions
vars == <<old, new, from, to, dom, changes, renames, additions>>
Init == /\ old \in Trees /\ new \in Trees /\ from \in Starts /\ to \in Starts
        /\ dom = Flat(old, from, 0)
        /\ changes = InPlace(old, from, new) /\ renames = NewIds(old, from, new, to) /\ additions = Additions(old, new, to)
Change == /\ changes # <<>> /\ dom' = Exec(dom, Head(changes)) /\ changes' = Tail(changes)
          /\ UNCHANGED <<old, new, from, to, renames, additions>>
\* in any order, but to ids which are free
Rename == /\ changes = <<>>
          /\ \E r \in renames : /\ At(dom, r[2]) = {}
                                /\ dom' = Exec(dom, Op("id", r[1], r[2])) /\ renames' = renames \ {r}
          /\ UNCHANGED <<old, new, from, to, changes, additions>>
Add == /\ changes = <<>> /\ renames = {} /\ additions # <<>> /\ dom' = Exec(dom, Head(additions)) /\ additions' = Tail(additions)
       /\ UNCHANGED <<old, new, from, to, changes, renames>>
Next == Change \/ Rename \/ Add
Spec == Init /\ [][Next]_vars

Over == changes = <<>> /\ renames = {} /\ additions = <<>>
Painted == Over => dom = Flat(new, to, 0)
NoSharedIds == \A p, q \in 1..Len(dom) : p # q => dom[p].id # dom[q].id
TargetsExist == /\ changes # <<>> => At(dom, Head(changes).id) # {}
                /\ changes = <<>> => \A r \in renames : At(dom, r[1]) # {}
                /\ changes = <<>> /\ renames = {} /\ additions # <<>> => At(dom, Head(additions).id) # {}
\* the new ids can always be given out
NeverStuck == changes = <<>> /\ renames # {} => \E r \in renames : At(dom, r[2]) = {}
Safe == Painted /\ NoSharedIds /\ TargetsExist /\ NeverStuck
=============================================================================
