------------------------------ MODULE Gen_Live ------------------------------
(* Walks LiveSession at random and prints what browser and application did, for replay on a real one.     *)
(* "settle": wait until nothing is left to do.                                                              *)
EXTENDS LiveSession, Json, TLC
VARIABLES hist, n
gvars == <<vars, hist, n>>
ViewsDef == {[calls |-> <<<<"a", "click">>>>], [calls |-> <<<<"b", "input">>, <<"a", "submit">>>>]}
MessagesDef == {[junk |-> j, l |-> x, v |-> <<>>] : j \in {TRUE, FALSE}, x \in {"a", "b", "fire"}}
MaxSteps == 60
GInit == Init /\ hist = <<>> /\ n = 0
Add(x) == hist' = Append(hist, x)
Settled == comp = "live" /\ left = "no" /\ painted = Len(shown) /\ took = Len(up) /\ \A h \in Handles : did[h] = Len(inbox[h])
Stop == /\ n >= MaxSteps /\ n' = n + 1000 /\ PrintT("BEHAVIOUR " \o ToJson(hist)) /\ UNCHANGED <<vars, hist>>
GNext == \/ Stop
         \/ /\ n < MaxSteps /\ n' = n + 1
            /\ \/ (Component \/ PaintNext) /\ UNCHANGED hist
               \/ painted > 0 /\ RandomElement(1..2) = 1 /\ \E m \in {RandomElement(Messages)} : Send(m) /\ Add(IF m.junk THEN "junk" ELSE "fire")
               \/ comp # "none" /\ RandomElement(1..3) = 1 /\ \E h \in Handles, v \in {RandomElement(Views)} : Input(h, v) /\ Add(IF v.calls[1][1] = "a" THEN "input" \o ToString(h) ELSE "relay" \o ToString(h))
               \/ Settled /\ hist # <<>> /\ hist[Len(hist)] # "settle" /\ Add("settle") /\ UNCHANGED vars
               \/ RandomElement(1..25) = 1 /\ \E how \in {RandomElement({"frame", "fin", "reset", "violation", "close"})} :
                    Leave(IF how \in {"reset", "close"} THEN "abrupt" ELSE "orderly") /\ Add(how)
               \/ UNCHANGED vars /\ UNCHANGED hist
GSpec == GInit /\ [][n < 1000 /\ GNext]_gvars
=============================================================================
