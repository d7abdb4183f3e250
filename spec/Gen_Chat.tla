------------------------------ MODULE Gen_Chat ------------------------------
(* Walks ChatDesign at random and prints what the users do, for replay with real browsers.  "rest": nothing *)
(* is left to do.                                                                                              *)
EXTENDS ChatDesign, Json, TLC
VARIABLES hist, n
gvars == <<vars, hist, n>>
MaxSteps == 170
GInit == Init /\ hist = <<>> /\ n = 0
Add(what, u) == hist' = Append(hist, <<what, u>>)
Resting == asked = <<>> /\ \A u \in Users : comp[u] \in {"none", "gone"} \/ (comp[u] \in {"out", "in"} /\ mail[u] = <<>> /\ u \notin left)
GNext == \/ /\ n >= MaxSteps /\ n' = n + 1000 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<vars, hist>>
         \/ /\ n < MaxSteps /\ n' = n + 1
            /\ \/ RandomElement(1..3) = 1 /\ \E u \in Users : (\A v \in Users : v < u => comp[v] # "none") /\ Join(u) /\ Add("join", u)
               \/ \E u \in Users : (clicks[u].register = 0 \/ RandomElement(1..6) = 1) /\ Register(u) /\ Add("register", u)
               \/ \E u \in Users : Say(u) /\ Add("say", u)
               \/ RandomElement(1..10) = 1 /\ \E u \in Users : Leave(u) /\ Add("leave", u)
               \/ (Coordinator \/ \E u \in Users : Take(u) \/ Answered(u) \/ Ends(u)) /\ UNCHANGED hist
               \/ Resting /\ hist # <<>> /\ hist[Len(hist)][1] # "rest" /\ Add("rest", 0) /\ UNCHANGED vars
               \/ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][n < 1000 /\ GNext]_gvars
=============================================================================
