---------------------------- MODULE MC_KeyedDiff ----------------------------
EXTENDS KeyedDiff, KeyedElements
Ks == {"", "a", "b"}
Quick == AllNumbered(Flats(2, Ks, NameOf), 0..2) \cup {Numbered(x, 1, [i \in 1..9 |-> i - 1]) : x \in Flats(3, {"a", "b", "c"}, NameOf) \cup Deeper(Ks)}
Deep == AllNumbered(Flats(2, Ks, NameOf) \cup Deeper({"a", "b"}), 0..3) \cup {Numbered(x, 1, [i \in 1..9 |-> i - 1]) : x \in Flats(4, {"a", "b", "c"}, NameOf)}
=============================================================================
