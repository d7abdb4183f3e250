--------------------------- MODULE NodeConversion ---------------------------
(* Nodes as an application builds them, [n: tag, t: <<>> or <<text>>, a: <<name, value>> pairs, l: the       *)
(* listeners attached, k: the children attached], and the elements they become.  The nodes of one            *)
(* application are converted one after the other with the same source of ids, so an id is given out once.      *)
EXTENDS ElementTree

\* The tags which cannot have children (yet), and those which nothing can be listened to on
Leaves == {"h1", "h2", "h3", "h4", "h5", "h6", "label", "a", "img", "br", "noscript"}
Deaf == {"br", "noscript"}
Buildable(x) == /\ x.n \in Leaves => x.k = <<>>
                /\ x.n \in Deaf => x.l = <<>>

RECURSIVE Becomes(_, _, _)
\* the element e is what the node x becomes when the next id is i
Becomes(x, e, i) ==
  /\ e.n = x.n /\ e.id = i /\ TextOf(e) = TextOf(x) /\ e.l = x.l
  /\ Len(e.a) = Cardinality(Pairs(x.a)) /\ Pairs(e.a) = Pairs(x.a)
  /\ Len(e.k) = Len(x.k)
  /\ \A j \in 1..Len(x.k) : Becomes(x.k[j], e.k[j], ChildId(x, i, j))

VARIABLES next, given   \* the next id, and the ids of the elements so far
cvars == <<next, given>>
CInit == next = 0 /\ given = <<>>
RECURSIVE IdsOf(_)
IdsOf(e) == <<e.id>> \o FlattenSeq([j \in 1..Len(e.k) |-> IdsOf(e.k[j])])
Convert(x, e) == /\ Becomes(x, e, next) = TRUE
                 /\ next' = next + Size(x) /\ given' = given \o IdsOf(e)
\* every id is given out once, in document order, and nothing gets none
Consecutive == given = [i \in 1..next |-> i - 1]
=============================================================================
