----------------------------- MODULE Gen_Nodes -----------------------------
(* The shapes of nodes: what can have children, what cannot.                                               *)
EXTENDS SmallTrees, SequencesExt, Json, IOUtils, TLC
Box == [n |-> "box", a |-> <<>>, t |-> <<>>, l |-> <<>>]
Leaf == [n |-> "leaf", a |-> <<>>, t |-> <<>>, l |-> <<>>]
RECURSIVE Fine(_)
Fine(x) == (x.n = "leaf" => x.k = <<>>) /\ \A j \in 1..Len(x.k) : Fine(x.k[j])
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({x \in TreesUpTo(IF IOEnv.LONG = "yes" THEN 5 ELSE 4, {Box, Leaf}) : Fine(x)}))
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
