----------------------------- MODULE Trace_Chat -----------------------------
(* Validates what the users of a running chat saw.  What the coordinator does cannot be seen, so for each    *)
(* pair of users u, v `next[u][v]` has the numbers which the next message of v that u is to be shown can      *)
(* have: what v said after u was seen to be registered is due, what was seen to be said before u clicked to   *)
(* register is not, and what comes in between may be due or not, but from the first one on all of it is.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, user,
          known     \* of each user: the number of messages which the coordinator is known to have taken
vars == <<t, l, user, known>>
S == Sessions[t]
E == S.runs[l]
U == 1..S.users
New == [phase |-> "none", name |-> "", id |-> -1, said |-> <<>>, saw |-> <<>>, since |-> <<>>, next |-> <<>>]
TInit == /\ t \in 1..Len(Sessions) /\ l = 1
         /\ user = [u \in U |-> New] /\ known = [u \in U |-> 0]

Join == E.e = "join" /\ user[E.u].phase = "none" /\ user' = [user EXCEPT ![E.u].phase = "out"] /\ UNCHANGED known
\* a click to register counts if it is the first one
Register == /\ E.e = "register" /\ UNCHANGED known
            /\ user' = IF user[E.u].phase = "out"
                       THEN [user EXCEPT ![E.u].phase = "asked", ![E.u].name = E.name, ![E.u].since = known] ELSE user
Say == E.e = "say" /\ user[E.u].phase = "in" /\ user' = [user EXCEPT ![E.u].said = Append(@, E.text)] /\ UNCHANGED known
Leave == E.e = "leave" /\ user' = [user EXCEPT ![E.u].phase = "left"] /\ UNCHANGED known

\* ---- what a browser shows --------------------------------------------------------------------------------
Max(a, b) == IF a > b THEN a ELSE b
Low(N) == CHOOSE k \in N : \A j \in N : k <= j
\* user x (a record) is shown message m: the ways in which it can be the next one of v
Fits(x, us, v, m) == IF us[v].id # m.id \/ us[v].name # m.name THEN {}
                     ELSE {k \in x.next[v] : k <= Len(us[v].said) /\ us[v].said[k] = m.text}
RECURSIVE Sees(_, _, _)
\* [x, known] after x was shown ms; x = New if there is no explanation for them
Sees(r, us, ms) ==
  IF ms = <<>> THEN r
  ELSE LET from == {v \in DOMAIN us : Fits(r.x, us, v, ms[1]) # {}}
       IN IF from = {} THEN [r EXCEPT !.x = New]
          ELSE LET v == Low(from)
                   N == {k + 1 : k \in Fits(r.x, us, v, ms[1])}
               IN Sees([x |-> [r.x EXCEPT !.next[v] = N, !.saw = Append(@, ms[1])], known |-> [r.known EXCEPT ![v] = Max(@, Low(N) - 1)]], us, Tail(ms))
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* (somebody who has not been there yet says everything after this)
Enter(u, id) == LET me == [user[u] EXCEPT !.phase = "in", !.id = id,
                                          !.next = [v \in U |-> IF v = u THEN {1} ELSE (user[u].since[v] + 1)..(Len(user[v].said) + 1)]]
                IN me
Shows == /\ E.e = "shows"
         /\ LET u == E.u
                w == E.view
                x == user[u]
            IN CASE x.phase \in {"out", "asked"} /\ w.stage = "out" -> UNCHANGED <<user, known>>
                 [] x.phase \in {"asked", "in"} /\ w.stage = "in" ->
                      LET me == IF x.phase = "asked" THEN Enter(u, w.id) ELSE x
                          us == [user EXCEPT ![u] = me]
                          r == Sees([x |-> me, known |-> known], us, SubSeq(w.messages, Len(x.saw) + 1, Len(w.messages)))
                      IN /\ (w.name = x.name /\ me.id = w.id) = TRUE
                         \* nobody else who is there has this id
                         /\ (x.phase = "asked" => \A v \in U : user[v].phase = "in" => user[v].id # w.id) = TRUE
                         /\ Prefix(x.saw, w.messages) = TRUE
                         /\ (r.x.phase = "in") = TRUE
                         /\ user' = [us EXCEPT ![u] = r.x] /\ known' = r.known
                 [] OTHER -> FALSE

\* ---- nothing is left to do -------------------------------------------------------------------------------
Rest == /\ E.e = "rest"
        /\ LET done == [v \in U |-> IF user[v].phase = "in" THEN Len(user[v].said) ELSE known[v]]
           IN /\ (\A u \in U : user[u].phase # "asked") = TRUE
              /\ (\A u \in U : user[u].phase = "in" => \A v \in U : \E k \in user[u].next[v] : k >= done[v] + 1) = TRUE
              /\ known' = done
              /\ user' = [u \in U |-> IF user[u].phase # "in" THEN user[u]
                                      ELSE [user[u] EXCEPT !.next = [v \in U |-> {k \in @[v] : k >= done[v] + 1}]]]

Step == l <= Len(S.runs) /\ (Join \/ Register \/ Say \/ Leave \/ Shows \/ Rest) /\ l' = l + 1 /\ UNCHANGED t
TDone == l > Len(S.runs) /\ UNCHANGED vars
TSpec == TInit /\ [][Step \/ TDone]_vars
\* ids of those who are there are different
TSafe == \A u, v \in U : u # v /\ user[u].phase = "in" /\ user[v].phase = "in" => user[u].id # user[v].id
=============================================================================
