----------------------------- MODULE ListDesign -----------------------------
(* How the list is kept: every connection has a process of its own, which reads the request, asks the one  *)
(* process which owns the list, and writes the response.  The requests to the owner wait in its mailbox.     *)
(* Clients come and go; a connection is served to the end also if its client has gone.                       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Clients, Calls, MaxCalls

VARIABLES list,      \* what the owner has
          mailbox,   \* connections whose requests wait, in order
          conns,     \* for each connection ever made: [client, call, stage, answer]
          waits      \* for each client: the connection whose answer it waits for, or 0
vars == <<list, mailbox, conns, waits>>

L == INSTANCE ListApp WITH items <- list,
       calling <- [c \in Clients |-> IF waits[c] = 0 THEN <<>>
                                     ELSE LET k == conns[waits[c]] IN IF k.answer = <<>> THEN <<k.call>> ELSE <<k.call, k.answer>>]

Init == list = <<>> /\ mailbox = <<>> /\ conns = <<>> /\ waits = [c \in Clients |-> 0]
Connect(c, x) == /\ waits[c] = 0 /\ Len(conns) < MaxCalls
                 /\ conns' = Append(conns, [client |-> c, call |-> x, stage |-> "sent", answer |-> <<>>])
                 /\ waits' = [waits EXCEPT ![c] = Len(conns')]
                 /\ UNCHANGED <<list, mailbox>>
\* the request has been parsed; what is no request for the list is answered at once
Parse(k) == /\ conns[k].stage = "sent"
            /\ IF conns[k].call.op = "bad"
               THEN /\ conns' = [conns EXCEPT ![k].stage = "answered", ![k].answer = <<"bad">>] /\ UNCHANGED mailbox
               ELSE /\ conns' = [conns EXCEPT ![k].stage = "asked"] /\ mailbox' = Append(mailbox, k)
            /\ UNCHANGED <<list, waits>>
Own == /\ mailbox # <<>>
       /\ LET k == Head(mailbox)
          IN /\ list' = L!After(conns[k].call, list)
             /\ conns' = [conns EXCEPT ![k].stage = "answered", ![k].answer = L!AnswerTo(conns[k].call, list)]
       /\ mailbox' = Tail(mailbox) /\ UNCHANGED waits
Receive(c) == /\ waits[c] # 0 /\ conns[waits[c]].stage = "answered" /\ waits' = [waits EXCEPT ![c] = 0]
              /\ UNCHANGED <<list, mailbox, conns>>
\* a client which goes away before its request has arrived loses it, or does not
GiveUp(c) == /\ waits[c] # 0 /\ waits' = [waits EXCEPT ![c] = 0]
             /\ \/ UNCHANGED conns
                \/ conns[waits[c]].stage = "sent" /\ conns' = [conns EXCEPT ![waits[c]].stage = "lost"]
             /\ UNCHANGED <<list, mailbox>>
Next == \/ \E c \in Clients : (\E x \in Calls : Connect(c, x)) \/ Receive(c) \/ GiveUp(c)
        \/ \E k \in 1..Len(conns) : Parse(k)
        \/ Own
Spec == Init /\ [][Next]_vars /\ WF_vars(Own) /\ \A k \in 1..MaxCalls : WF_vars(k <= Len(conns) /\ Parse(k)) /\ \A c \in Clients : WF_vars(Receive(c))

\* ---- what follows --------------------------------------------------------------------------------------
Count(x) == Cardinality({i \in 1..Len(list) : list[i] = x})
AddsOf(x, stages) == Cardinality({k \in 1..Len(conns) : conns[k].call.op = "add" /\ conns[k].call.x = x /\ conns[k].stage \in stages})
\* every submission which was answered is there once, and there is nothing else
ExactlyOnce == \A x \in {"a", "b"} : Count(x) = AddsOf(x, {"answered"})
\* what is answered was the case since the call was made: the items read are the last ones of some state of the list
ReadsAreSuffixes == \A k \in 1..Len(conns) : conns[k].call.op = "read" /\ conns[k].stage = "answered" =>
   \E n \in 0..Len(list) : conns[k].answer = <<"items", L!LastOf(SubSeq(list, 1, n), conns[k].call.n)>>
Safe == ExactlyOnce /\ ReadsAreSuffixes
\* As long as nobody gives up, the list is what its clients think it is.  (A call of a client which has given
\* up may take effect later, which is no step of ListApp.)
Patient == \A k \in 1..Len(conns) : conns[k].stage \in {"sent", "asked"} => \E c \in Clients : waits[c] = k
Linearizable == [][(Patient /\ Patient') => (L!Next \/ UNCHANGED L!vars)]_vars
Answered == \A c \in Clients : waits[c] # 0 ~> waits[c] = 0
=============================================================================
