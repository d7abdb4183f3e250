--------------------------- MODULE Trace_HttpBody ---------------------------
(* Validates recorded reads of bodies which the application built itself (Body::from_reader,         *)
(* Body::from_string, From<&str>, Body::empty).                                                       *)
EXTENDS BodyReads, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
S == Sessions[t]
Init == t \in 1..Len(Sessions) /\ l = 1
Body == IF S.decl < 0 THEN S.wire ELSE UpTo(S.wire, Min2(S.decl, Len(S.wire)))
Step == /\ l <= Len(S.runs)
        /\ S.runs[l].r = "ok"
        /\ BodyFits(S.runs[l], Body, S.decl >= 0 /\ Len(Body) = S.decl)
        /\ l' = l + 1 /\ UNCHANGED t
Done == l > Len(S.runs) /\ UNCHANGED <<t, l>>
Spec == Init /\ [][Step \/ Done]_<<t, l>>
=============================================================================
