---------------------------- MODULE Trace_Stays ----------------------------
(* Validates which nodes of a document the updates of a live component touch: each event of a session has a  *)
(* view and the nodes which show it.                                                                            *)
EXTENDS ViewIdentity, TLC, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
R == Sessions[t].runs
TInit == t \in 1..Len(Sessions) /\ l = 1
Step == /\ l <= Len(R)
        /\ (l = 1 \/ (Len(R[l].nodes) = 1 /\ Len(R[l - 1].nodes) = 1 /\ Stays(R[l - 1].view, R[l].view, R[l - 1].nodes[1], R[l].nodes[1]))) = TRUE
        /\ l' = l + 1 /\ UNCHANGED t
TDone == l > Len(R) /\ UNCHANGED vars
TSpec == TInit /\ [][Step \/ TDone]_vars
=============================================================================
