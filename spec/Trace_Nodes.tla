---------------------------- MODULE Trace_Nodes ----------------------------
(* Validates recorded conversions: the runs of a session are the nodes which were converted, in order,     *)
(* with the elements they became.                                                                            *)
EXTENDS NodeConversion, TLC, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<t, l, cvars>>
E == Sessions[t].runs[l]
TInit == t \in 1..Len(Sessions) /\ l = 1 /\ CInit
Step == /\ l <= Len(Sessions[t].runs)
        /\ E.e = "converted" /\ Convert(E.node, E.element)
        /\ l' = l + 1 /\ UNCHANGED t
TDone == l > Len(Sessions[t].runs) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ TDone]_tvars
TSafe == Consecutive
=============================================================================
