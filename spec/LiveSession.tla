---------------------------- MODULE LiveSession ----------------------------
(* One page with a live component: the component on the server, the browser which shows it, and the       *)
(* processes which send it inputs by its handle.                                                           *)
(*                                                                                                         *)
(* A view is [calls: <<listener, kind>> pairs, ...]: what the component renders to, with the calls by which  *)
(* messages of the browser become inputs.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- what a message of the browser, [junk, l, v], does -------------------------------------------------
KindOf(calls, name) == LET ks == {i \in 1..Len(calls) : calls[i][1] = name} IN IF ks = {} THEN "none" ELSE calls[CHOOSE i \in ks : TRUE][2]
\* <<>> or <<the event the component gets>>
Runs(m, calls) ==
  IF m.junk THEN <<>>
  ELSE LET kind == KindOf(calls, m.l)
       IN CASE kind = "none" -> <<>>
            [] kind = "input" -> IF m.v = <<>> THEN <<>> ELSE <<[l |-> m.l, kind |-> kind, value |-> m.v[1]]>>
            [] OTHER -> <<[l |-> m.l, kind |-> kind, value |-> ""]>>

Browser == -1
CONSTANTS Views, Handles, Messages, MaxUp, MaxInputs

VARIABLES
  comp,       \* "none", "live", "gone" (dropped) or "crashed"
  shown,      \* the views the component has rendered, in order
  painted,    \* how many of them the browser has got
  up, took,   \* the messages the browser has sent, and how many of them the component is done with
  inbox, did, \* for each handle: the inputs sent by it, and how many of them the component is done with
  left,       \* "no", "orderly" (after all it has sent) or "abrupt"
  log         \* the updates of the component: <<Browser, event>> or <<handle, number>>
vars == <<comp, shown, painted, up, took, inbox, did, left, log>>

Init == /\ comp = "none" /\ shown = <<>> /\ painted = 0 /\ up = <<>> /\ took = 0 /\ left = "no" /\ log = <<>>
        /\ inbox = [h \in Handles |-> <<>>] /\ did = [h \in Handles |-> 0]
Calls == shown[Len(shown)].calls

\* ---- the browser and the application -------------------------------------------------------------------
Send(m) == /\ left = "no" /\ Len(up) < MaxUp /\ up' = Append(up, m)
           /\ UNCHANGED <<comp, shown, painted, took, inbox, did, left, log>>
Input(h, v) == /\ Len(inbox[h]) < MaxInputs /\ inbox' = [inbox EXCEPT ![h] = Append(@, v)]
               /\ UNCHANGED <<comp, shown, painted, up, took, did, left, log>>
Leave(how) == /\ left = "no" /\ left' = how
              /\ UNCHANGED <<comp, shown, painted, up, took, inbox, did, log>>
\* ---- the component -----------------------------------------------------------------------------------------
Begin(v) == /\ comp = "none" /\ comp' = "live" /\ shown' = <<v>>
            /\ UNCHANGED <<painted, up, took, inbox, did, left, log>>
TakeMessage == /\ comp = "live" /\ took < Len(up) /\ took' = took + 1
               /\ LET ev == Runs(up[took + 1], Calls)
                  IN IF ev = <<>> THEN UNCHANGED <<shown, log>>
                     ELSE /\ \E v \in Views : shown' = Append(shown, v)
                          /\ log' = Append(log, <<Browser, ev[1]>>)
               /\ UNCHANGED <<comp, painted, up, inbox, did, left>>
TakeInput(h) == /\ comp = "live" /\ did[h] < Len(inbox[h]) /\ did' = [did EXCEPT ![h] = @ + 1]
                /\ shown' = Append(shown, inbox[h][did[h] + 1]) /\ log' = Append(log, <<h, did[h] + 1>>)
                /\ UNCHANGED <<comp, painted, up, took, inbox, left>>
Drop == /\ comp = "live" /\ left # "no" /\ (left = "orderly" => took = Len(up)) /\ comp' = "gone"
        /\ UNCHANGED <<shown, painted, up, took, inbox, did, left, log>>
\* an update, a rendering or the like fails: nothing more is heard of the component
Crash == comp \in {"none", "live"} /\ comp' = "crashed" /\ UNCHANGED <<shown, painted, up, took, inbox, did, left, log>>
\* ---- on the way to the browser ---------------------------------------------------------------------------
PaintNext == /\ left = "no" /\ painted < Len(shown) /\ painted' = painted + 1
             /\ UNCHANGED <<comp, shown, up, took, inbox, did, left, log>>

Component == TakeMessage \/ (\E h \in Handles : TakeInput(h)) \/ Drop \/ (\E v \in Views : Begin(v))
Next == \/ Component \/ Crash \/ PaintNext
        \/ \E m \in Messages : Send(m)
        \/ \E h \in Handles, v \in Views : Input(h, v)
        \/ \E how \in {"orderly", "abrupt"} : Leave(how)
Fair == /\ WF_vars(\E v \in Views : Begin(v)) /\ WF_vars(TakeMessage) /\ WF_vars(Drop) /\ WF_vars(PaintNext)
        /\ \A h \in Handles : WF_vars(TakeInput(h))
Spec == Init /\ [][Next]_vars /\ Fair

\* ---- what follows ------------------------------------------------------------------------------------------
Of(who) == SelectSeq(log, LAMBDA u : u[1] = who)
OneViewPerUpdate == shown # <<>> => Len(shown) = 1 + Len(log)
InputsInOrder == \A h \in Handles : Of(h) = [i \in 1..did[h] |-> <<h, i>>]
NeverAhead == painted <= Len(shown) /\ took <= Len(up)
\* what the component was told by the browser are some of the messages, in the order they were sent
EventsFromMessages == Len(Of(Browser)) <= took
Safe == OneViewPerUpdate /\ InputsInOrder /\ NeverAhead /\ EventsFromMessages
GoneIsGone == [][(comp = "gone" \/ comp = "crashed") => UNCHANGED <<comp, shown, took, did, log>>]_vars
AppendOnly == [][SubSeq(shown', 1, Len(shown)) = shown /\ painted' >= painted]_vars
DroppedWhenLeft == left # "no" ~> comp \in {"gone", "crashed"}
InputsAreTaken == \A h \in Handles : \A i \in 1..MaxInputs : (Len(inbox[h]) >= i) ~> (did[h] >= i \/ left # "no" \/ comp = "crashed")
EverythingIsPainted == \A i \in 1..3 : (Len(shown) >= i) ~> (painted >= i \/ left # "no")
=============================================================================
