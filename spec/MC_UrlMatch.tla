---------------------------- MODULE MC_UrlMatch ----------------------------
(* What a pattern must match, said without the segment-by-segment recipe of UrlMatch, checked for      *)
(* every small pattern and path; and the enumeration of (pattern, path) pairs replayed into the code.   *)
EXTENDS UrlMatch, SequencesExt, IOUtils

Segs == {<<"static", "a">>, <<"static", "">>, <<"static", "1">>, <<"any", "">>, <<"int", "">>}
Texts == {"a", "", "1", "b", "-0", "+", "A"}
Pats == UNION {[1..n -> Segs] : n \in 0..3}
Paths == UNION {[1..n -> Texts] : n \in 1..3}
RECURSIVE Join(_, _)
Join(ss, i) == IF i > Len(ss) THEN "" ELSE "/" \o ss[i] \o Join(ss, i + 1)

VARIABLES pat, path
Init == pat = <<>> /\ path \in Paths
Spec == Init /\ [][pat = <<>> /\ pat' \in Pats /\ UNCHANGED path]_<<pat, path>>

V(p, q) == Matches(p, Join(q, 1))
\* one more "anything" on both sides changes nothing, one more on one side never matches
Extend == \A x \in Texts : V(Append(pat, <<"any", "">>), Append(path, x)) = V(pat, path)
Counts == Len(pat) # Len(path) => V(pat, path) = "no"
\* a fixed segment accepts its own text only
Exact == \A i \in 1..Len(pat) : V(pat, path) = "yes" /\ pat[i][1] = "static" => path[i] = pat[i][2]
\* making one segment "anything" never loses a match; replacing it by the text itself keeps one
Weaken == V(pat, path) = "yes" => \A i \in 1..Len(pat) : /\ V([pat EXCEPT ![i] = <<"any", "">>], path) = "yes"
                                                         /\ V([pat EXCEPT ![i] = <<"static", path[i]>>], path) = "yes"
Ints == V(pat, path) = "yes" => \A i \in 1..Len(pat) : pat[i][1] = "int" => path[i] \in {"1", "-0"}
\* and a pattern whose every segment fits on its own matches
Parts == (Len(pat) = Len(path) /\ \A i \in 1..Len(pat) : V(<<pat[i]>>, <<path[i]>>) = "yes") <=> V(pat, path) = "yes"
Inv == Extend /\ Counts /\ Exact /\ Weaken /\ Ints /\ (Len(pat) > 0 => Parts)

Limits == /\ Fit(<<"int", "">>, "2147483647") = "yes" /\ Fit(<<"int", "">>, "-2147483648") = "yes"
          /\ Fit(<<"int", "">>, "+0002147483647") = "yes"
          /\ Fit(<<"int", "">>, "2147483648") = "free" /\ Fit(<<"int", "">>, "-2147483649") = "free"
          /\ Fit(<<"int", "">>, "--1") = "no" /\ Fit(<<"int", "">>, "1e3") = "no" /\ Fit(<<"int", "">>, "") = "no"
ASSUME Limits
ASSUME JsonSerialize(IOEnv.OUT, [pats |-> SetToSeq(Pats), paths |-> SetToSeq({Join(q, 1) : q \in Paths})])
=============================================================================
