-------------------------- MODULE MC_SharedSocket --------------------------
EXTENDS SharedSocket
B(p, i, n) == [j \in 1..n |-> 100 * p + 10 * i + j]
\* every frame in one write / its head and its payload in one each
OneWrite == [p \in 1..2 |-> [i \in 1..2 |-> <<B(p, i, p + 1)>>]]
TwoWrites == [p \in 1..2 |-> [i \in 1..2 |-> <<B(p, i, 1), B(p, i, p)>>]]
Three == [p \in 1..3 |-> [i \in 1..2 |-> <<B(p, i, 2)>>]]
=============================================================================
