---------------------------- MODULE KeyedElements ----------------------------
(* Elements with children which have keys (or none): all of a certain size.                               *)
EXTENDS Integers, Sequences, FiniteSets
\* a root with up to n children with keys from K, without repeats unless twice
Flats(n, K, N) == {[n |-> "div", key |-> "", k |-> [j \in 1..m |-> [n |-> N[s[j]], key |-> s[j], k |-> <<>>]]] :
                   <<m, s>> \in UNION {{<<i, f>> : f \in [1..i -> K]} : i \in 0..n}}
\* chains and forks of three, all with keys from K
Deeper(K) == {[n |-> "div", key |-> "", k |-> <<[n |-> "p", key |-> a, k |-> <<[n |-> "p", key |-> b, k |-> <<>>]>>]>>] : a, b \in K}
             \cup {[n |-> "div", key |-> "", k |-> <<[n |-> "p", key |-> a, k |-> <<[n |-> "p", key |-> b, k |-> <<>>]>>],
                                                   [n |-> "a", key |-> c, k |-> <<>>]>>] : a, b, c \in K}
\* the elements with numbers given by the sequence s, in document order
RECURSIVE CountOf(_), Sum(_, _), Numbered(_, _, _)
Sum(xs, n) == IF n = 0 THEN 0 ELSE CountOf(xs[n]) + Sum(xs, n - 1)
CountOf(x) == 1 + Sum(x.k, Len(x.k))
Numbered(x, i, s) == [id |-> s[i], n |-> x.n, key |-> x.key,
                      k |-> [j \in 1..Len(x.k) |-> Numbered(x.k[j], i + 1 + Sum(x.k, j - 1), s)]]
Injections(n, S) == {f \in [1..n -> S] : \A i, j \in 1..n : i # j => f[i] # f[j]}
AllNumbered(X, S) == UNION {{Numbered(x, 1, f) : f \in Injections(CountOf(x), S)} : x \in X}
NameOf == [c \in {"", "a", "b", "c"} |-> IF c = "a" THEN "p" ELSE "div"]
=============================================================================
