----------------------------- MODULE ChatDesign -----------------------------
(* A chat: one coordinator knows who is there; every connection has a component with a mailbox of its own,  *)
(* in which what its browser does and what the coordinator tells it arrive.  To register, to say something   *)
(* and to be removed, a component asks the coordinator and waits for the answer, whatever else arrives.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Users,      \* connections; each lives once
          MaxSaid,    \* how often each of them says something
          MaxRegister \* and clicks to register

VARIABLES comp,       \* "none", "out" (not registered), "asks" (waits for an answer), "in", "gone"
          mail,       \* of each component: clicks, and messages <<sender, k>>
          asked,      \* the coordinator's mailbox: <<what, user>>
          answer,     \* to each component: <<>> or <<what, ...>>
          idOf,       \* what each component was told its id is; -1: nothing
          users,      \* the coordinator's: a function from ids to users
          recycle, head,
          shown,      \* to each user: the messages, in order
          clicks,     \* [register, say] of each browser
          left,       \* connections which have ended
          log         \* the messages which the coordinator has taken, with who was registered: [msg, who]
vars == <<comp, mail, asked, answer, idOf, users, recycle, head, shown, clicks, left, log>>

None == -1
\* clicks of the browser of the component
ToRegister == <<0, 1>>
ToSay == <<0, 2>>
IsClick(x) == x[1] = 0
Init == /\ comp = [u \in Users |-> "none"] /\ mail = [u \in Users |-> <<>>] /\ asked = <<>>
        /\ answer = [u \in Users |-> <<>>] /\ idOf = [u \in Users |-> None] /\ users = <<>>
        /\ recycle = <<>> /\ head = 0 /\ shown = [u \in Users |-> <<>>]
        /\ clicks = [u \in Users |-> [register |-> 0, say |-> 0]] /\ left = {} /\ log = <<>>

Join(u) == comp[u] = "none" /\ comp' = [comp EXCEPT ![u] = "out"] /\ UNCHANGED <<mail, asked, answer, idOf, users, recycle, head, shown, clicks, left, log>>
Put(u, x) == mail' = [mail EXCEPT ![u] = Append(@, x)]
\* A user may click on what it sees; once it has clicked to register, it still sees the same for a while.
Register(u) == /\ comp[u] \in {"out", "asks"} /\ idOf[u] = None /\ u \notin left /\ clicks[u].register < MaxRegister
               /\ Put(u, ToRegister) /\ clicks' = [clicks EXCEPT ![u].register = @ + 1]
               /\ UNCHANGED <<comp, asked, answer, idOf, users, recycle, head, shown, left, log>>
Say(u) == /\ idOf[u] # None /\ u \notin left /\ comp[u] # "gone" /\ clicks[u].say < MaxSaid
          /\ Put(u, ToSay) /\ clicks' = [clicks EXCEPT ![u].say = @ + 1]
          /\ UNCHANGED <<comp, asked, answer, idOf, users, recycle, head, shown, left, log>>
Leave(u) == /\ comp[u] \in {"out", "asks", "in"} /\ u \notin left /\ left' = left \cup {u}
            /\ UNCHANGED <<comp, mail, asked, answer, idOf, users, recycle, head, shown, clicks, log>>

\* ---- components ------------------------------------------------------------------------------------------
Ask(u, what) == asked' = Append(asked, <<what, u>>) /\ comp' = [comp EXCEPT ![u] = "asks"]
Take(u) == /\ comp[u] \in {"out", "in"} /\ mail[u] # <<>>
           /\ mail' = [mail EXCEPT ![u] = Tail(@)]
           /\ LET x == Head(mail[u])
              IN CASE x = ToRegister /\ comp[u] = "out" -> Ask(u, "register") /\ UNCHANGED shown
                   [] x = ToSay /\ comp[u] = "in" -> Ask(u, "say") /\ UNCHANGED shown
                   [] ~IsClick(x) /\ comp[u] = "in" -> shown' = [shown EXCEPT ![u] = Append(@, x)] /\ UNCHANGED <<asked, comp>>
                   [] OTHER -> UNCHANGED <<asked, comp, shown>>
           /\ UNCHANGED <<answer, idOf, users, recycle, head, clicks, left, log>>
Answered(u) == /\ comp[u] = "asks" /\ answer[u] # <<>>
               /\ answer' = [answer EXCEPT ![u] = <<>>]
               /\ CASE answer[u][1] = "registered" -> comp' = [comp EXCEPT ![u] = "in"] /\ idOf' = [idOf EXCEPT ![u] = answer[u][2]] /\ UNCHANGED shown
                    [] answer[u][1] = "said" -> comp' = [comp EXCEPT ![u] = "in"] /\ shown' = [shown EXCEPT ![u] = Append(@, answer[u][2])] /\ UNCHANGED idOf
                    [] answer[u][1] = "removed" -> comp' = [comp EXCEPT ![u] = "gone"] /\ UNCHANGED <<idOf, shown>>
               /\ UNCHANGED <<mail, asked, users, recycle, head, clicks, left, log>>
\* the component notices that its connection has ended: what has arrived since does not matter
Ends(u) == /\ u \in left /\ comp[u] \in {"out", "in"}
           /\ IF comp[u] = "in" THEN Ask(u, "remove") ELSE comp' = [comp EXCEPT ![u] = "gone"] /\ UNCHANGED asked
           /\ UNCHANGED <<mail, answer, idOf, users, recycle, head, shown, clicks, left, log>>

\* ---- the coordinator -------------------------------------------------------------------------------------
With(f, i, u) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN u ELSE f[j]]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Tell(u, x) == answer' = [answer EXCEPT ![u] = x]
Coordinator ==
  /\ asked # <<>> /\ asked' = Tail(asked)
  /\ LET what == Head(asked)[1]
         u == Head(asked)[2]
     IN CASE what = "register" ->
               LET id == IF recycle = <<>> THEN head ELSE recycle[Len(recycle)]
               IN /\ head' = IF recycle = <<>> THEN head + 1 ELSE head
                  /\ recycle' = IF recycle = <<>> THEN recycle ELSE SubSeq(recycle, 1, Len(recycle) - 1)
                  /\ users' = With(users, id, u) /\ Tell(u, <<"registered", id>>)
                  /\ UNCHANGED <<mail, log>>
          [] what = "say" ->
               LET msg == <<u, 1 + Cardinality({i \in 1..Len(log) : log[i].msg[1] = u})>>
                   who == {users[i] : i \in DOMAIN users}
               IN /\ mail' = [v \in Users |-> IF v \in who \ {u} THEN Append(mail[v], msg) ELSE mail[v]]
                  /\ log' = Append(log, [msg |-> msg, who |-> who]) /\ Tell(u, <<"said", msg>>)
                  /\ UNCHANGED <<users, recycle, head>>
          [] what = "remove" ->
               /\ users' = Without(users, idOf[u]) /\ recycle' = Append(recycle, idOf[u]) /\ Tell(u, <<"removed">>)
               /\ UNCHANGED <<mail, log, head>>
  /\ UNCHANGED <<comp, idOf, shown, clicks, left>>

Next == \E u \in Users : Join(u) \/ Register(u) \/ Say(u) \/ Leave(u) \/ Take(u) \/ Answered(u) \/ Ends(u)
        \/ Coordinator
Spec == Init /\ [][Next]_vars /\ WF_vars(Coordinator) /\ \A u \in Users : WF_vars(Take(u)) /\ WF_vars(Answered(u)) /\ WF_vars(Ends(u))

\* ---- what follows ----------------------------------------------------------------------------------------
There(u) == idOf[u] # None /\ comp[u] # "gone" /\ ~\E i \in 1..Len(asked) : asked[i] = <<"remove", u>>
\* users who are there at the same time have different ids
Distinct == \A u, v \in Users : u # v /\ There(u) /\ There(v) /\ answer[u] # <<"removed">> /\ answer[v] # <<"removed">> => idOf[u] # idOf[v]
\* nobody is in the chat who is not registered, and nobody is registered for somebody else
Known == \A u \in Users : comp[u] = "in" => idOf[u] \in DOMAIN users /\ users[idOf[u]] = u
\* what was shown, and is still to be
ToSee(u) == shown[u] \o (IF answer[u] # <<>> /\ answer[u][1] = "said" THEN <<answer[u][2]>> ELSE <<>>) \o SelectSeq(mail[u], LAMBDA x : ~IsClick(x))
From(s, v) == SelectSeq(s, LAMBDA x : x[1] = v)
Due(u) == LET have == SelectSeq(log, LAMBDA e : u \in e.who) IN [i \in 1..Len(have) |-> have[i].msg]
\* each message once to each user who was registered then, those of one sender in order, and no others
Delivered == \A u, v \in Users : comp[u] \in {"in", "asks"} => From(ToSee(u), v) = From(Due(u), v)
ShownDue == \A u, v \in Users : LET s == From(shown[u], v) IN s = SubSeq(From(Due(u), v), 1, Len(s))
Safe == Distinct /\ Known /\ Delivered /\ ShownDue
\* who stays sees all of it
AllShown == \A u \in Users : (comp[u] = "in" /\ mail[u] # <<>>) ~> (mail[u] = <<>> \/ u \in left)
Removed == \A u \in Users : u \in left ~> comp[u] = "gone"
=============================================================================
