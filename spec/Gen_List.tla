------------------------------ MODULE Gen_List ------------------------------
(* Walks ListDesign at random and prints what the clients do, and when each request is complete: what the  *)
(* real clients then do to the real list.                                                                     *)
EXTENDS ListDesign, Json, TLC
VARIABLES hist, n
gvars == <<vars, hist, n>>
CallsDef == {[op |-> "add", x |-> "a"], [op |-> "add", x |-> "b"], [op |-> "read", n |-> 1], [op |-> "read", n |-> 2], [op |-> "bad"]}
MaxSteps == 150
GInit == Init /\ hist = <<>> /\ n = 0
Add(x) == hist' = Append(hist, x)
GNext == \/ /\ n >= MaxSteps /\ n' = n + 1000 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<vars, hist>>
         \/ /\ n < MaxSteps /\ n' = n + 1
            /\ \/ \E c \in Clients, x \in {RandomElement(Calls)} : Connect(c, x) /\ Add(<<"call", c, x.op>>)
               \/ \E k \in 1..Len(conns) : /\ Parse(k)
                                           /\ IF waits[conns[k].client] = k THEN Add(<<"finish", conns[k].client, "">>) ELSE UNCHANGED hist
               \/ Own /\ UNCHANGED hist
               \/ \E c \in Clients : Receive(c) /\ Add(<<"await", c, "">>)
               \/ RandomElement(1..8) = 1 /\ \E c \in Clients : GiveUp(c) /\ Add(<<"vanish", c, "">>)
GSpec == GInit /\ [][n < 1000 /\ GNext]_gvars
=============================================================================
