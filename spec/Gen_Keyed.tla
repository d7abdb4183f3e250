----------------------------- MODULE Gen_Keyed -----------------------------
(* The elements of the model of keyed changes, for replay: every one of them becomes every other one.       *)
EXTENDS KeyedElements, SequencesExt, Json, IOUtils, TLC
Long == IOEnv.LONG = "yes"
RECURSIVE Plain(_)
Plain(x) == [n |-> x.n, key |-> x.key, k |-> [j \in 1..Len(x.k) |-> Plain(x.k[j])]]
Elements == IF Long THEN Flats(4, {"a", "b", "c"}, NameOf) \cup Flats(3, {"", "a", "b"}, NameOf) \cup Deeper({"", "a", "b"})
            ELSE Flats(3, {"a", "b", "c"}, NameOf) \cup Flats(2, {"", "a", "b"}, NameOf) \cup Deeper({"a", "b"})
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Elements))
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
