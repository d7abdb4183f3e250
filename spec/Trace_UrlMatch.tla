--------------------------- MODULE Trace_UrlMatch ---------------------------
(* Validates recorded outcomes of Match::does_match.  One session is a pattern, its runs are URLs;      *)
(* path is the URL's path as the url crate gives it, base: the URL has no hierarchical path. *)
(* A URL such as custom://host has an empty path, of no segment at all.             *)
EXTENDS UrlMatch, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
S == Sessions[t]
E == S.runs[l]
Init == t \in 1..Len(Sessions) /\ l = 1
Expected == IF E.base \/ ~StartsWith(E.path, "/") THEN "no" ELSE Matches(S.segs, E.path)
Step == /\ l <= Len(S.runs)
        /\ E.r = "ok" /\ E.m = E.again
        /\ CASE Expected = "yes" -> E.m [] Expected = "no" -> ~E.m [] OTHER -> TRUE
        /\ l' = l + 1 /\ UNCHANGED t
Done == l > Len(S.runs) /\ UNCHANGED <<t, l>>
Spec == Init /\ [][Step \/ Done]_<<t, l>>
=============================================================================
