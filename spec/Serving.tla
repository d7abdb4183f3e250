------------------------------ MODULE Serving ------------------------------
(* What clients, matchers and handlers can observe of a running server (C04, C05, C07).                  *)
(* Nothing that happens on one connection appears in the conditions of another: that is C07's safety.      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Conns

VARIABLES srv,    \* [mode |-> "foreach" | "router", routes |-> <<<<matcher, handler>>, ...>>]
          plan,   \* what each client sends: [kind |-> "ok" | "bad" | "cut" | "free", head, pieces |-> numbers of
                  \*   pieces in the head and altogether, acc, boom |-> sets of matchers that accept it or crash on it]
          cl,     \* the client: "new", "open" or "gone"
          sent,   \* number of pieces sent
          fin,    \* the client has ended its direction
          tried,  \* matchers that have seen the request
          ran,    \* handlers that have been run with it, in order
          out     \* what the server has sent before closing: <<>>, or <<x>>, x in {"400", "answer", "nothing"}

clients == <<cl, sent, fin>>
vars == <<srv, plan, cl, sent, fin, tried, ran, out>>

Start == /\ cl = [c \in Conns |-> "new"] /\ sent = [c \in Conns |-> 0] /\ fin = [c \in Conns |-> FALSE]
         /\ tried = [c \in Conns |-> {}] /\ ran = [c \in Conns |-> <<>>] /\ out = [c \in Conns |-> <<>>]

(* ------------------------------- the client ------------------------------- *)
Connect(c) == /\ cl[c] = "new" /\ cl' = [cl EXCEPT ![c] = "open"]
              /\ UNCHANGED <<srv, plan, sent, fin, tried, ran, out>>
Send(c) == /\ cl[c] = "open" /\ ~fin[c] /\ sent[c] < plan[c].pieces
           /\ sent' = [sent EXCEPT ![c] = @ + 1]
           /\ UNCHANGED <<srv, plan, cl, fin, tried, ran, out>>
Fin(c) == /\ cl[c] = "open" /\ ~fin[c] /\ fin' = [fin EXCEPT ![c] = TRUE]
          /\ UNCHANGED <<srv, plan, cl, sent, tried, ran, out>>
Vanish(c) == /\ cl[c] = "open" /\ cl' = [cl EXCEPT ![c] = "gone"]
             /\ UNCHANGED <<srv, plan, sent, fin, tried, ran, out>>

(* ------------------------------- the server ------------------------------- *)
HeadIn(c) == cl[c] # "new" /\ sent[c] >= plan[c].head
Request_(c) == plan[c].kind \in {"ok", "free"} /\ HeadIn(c)       \* a request has arrived
Cut(c) == plan[c].kind = "cut" \/ sent[c] < plan[c].head
Unreadable(c) == \/ plan[c].kind \in {"bad", "free"} /\ HeadIn(c)
                 \/ Cut(c) /\ (fin[c] \/ cl[c] = "gone")

Accepts(c, k) == srv.mode = "foreach" \/ srv.routes[k][1] \in plan[c].acc
First(c) == IF \E k \in 1..Len(srv.routes) : Accepts(c, k)
            THEN CHOOSE k \in 1..Len(srv.routes) : Accepts(c, k) /\ \A j \in 1..(k - 1) : ~Accepts(c, j)
            ELSE 0
\* a matcher crashes before one has accepted
Booms(c) == /\ srv.mode # "foreach"
            /\ \E k \in 1..Len(srv.routes) : srv.routes[k][1] \in plan[c].boom /\ (First(c) = 0 \/ k < First(c))

\* a matcher sees the request
Try(c, m) == /\ Request_(c) /\ srv.mode # "foreach" /\ out[c] = <<>>
             /\ m \in {srv.routes[k][1] : k \in 1..Len(srv.routes)}
             /\ tried' = [tried EXCEPT ![c] = @ \cup {m}]
             /\ UNCHANGED <<srv, plan, clients, ran, out>>
\* the handler of the first matching route runs
Call(c, h) == /\ Request_(c) /\ ran[c] = <<>> /\ out[c] = <<>>
              /\ First(c) # 0 /\ h = srv.routes[First(c)][2]
              /\ ran' = [ran EXCEPT ![c] = Append(@, h)]
              /\ UNCHANGED <<srv, plan, clients, tried, out>>
\* the connection is over
MayEnd(c, x) ==
  /\ out[c] = <<>> /\ cl[c] # "new"
  /\ CASE x = "400" -> Unreadable(c) /\ tried[c] = {} /\ ran[c] = <<>>
       [] x = "answer" -> ran[c] # <<>>
       [] x = "nothing" -> \/ ran[c] # <<>>                                   \* the handler gave no answer
                           \/ Request_(c) /\ (First(c) = 0 \/ Booms(c))
                           \/ cl[c] = "gone" /\ Unreadable(c)
End(c, x) == /\ MayEnd(c, x)
             /\ out' = [out EXCEPT ![c] = <<x>>]
             /\ UNCHANGED <<srv, plan, clients, tried, ran>>

Ends == {"400", "answer", "nothing"}
Matchers == {srv.routes[k][1] : k \in 1..Len(srv.routes)}
Handlers == {srv.routes[k][2] : k \in 1..Len(srv.routes)}
OfServer(c) == (\E m \in Matchers : Try(c, m)) \/ (\E h \in Handlers : Call(c, h)) \/ (\E x \in Ends : End(c, x))
OfClient(c) == Connect(c) \/ Send(c) \/ Fin(c) \/ Vanish(c)
Next == \E c \in Conns : OfClient(c) \/ OfServer(c)

(* ------------------------------- properties -------------------------------- *)
\* C04
BadNeverReached == \A c \in Conns : plan[c].kind \in {"bad", "cut"} => tried[c] = {} /\ ran[c] = <<>> /\ out[c] \in {<<>>, <<"400">>, <<"nothing">>}
\* C05
OnceAndFirst == \A c \in Conns : Len(ran[c]) <= 1 /\ (ran[c] # <<>> => First(c) # 0 /\ ran[c] = <<srv.routes[First(c)][2]>>)
NoRouteNoHandler == \A c \in Conns : First(c) = 0 => ran[c] = <<>>
\* C07
OneAnswer == \A c \in Conns : Len(out[c]) <= 1 /\ (out[c] = <<"answer">> => ran[c] # <<>>)
=============================================================================
