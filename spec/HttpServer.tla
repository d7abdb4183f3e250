----------------------------- MODULE HttpServer -----------------------------
(* The server's design: one accept loop, one process per connection, which takes the request in, scans   *)
(* the routes in order and runs a handler.  Checked: it implements Serving, and every client that         *)
(* completes a request gets its answer whatever the other clients and handlers do.                         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Conns, Servers, Plans, Acts

VARIABLES srv, plan, cl, sent, fin, tried, ran, out,   \* as in Serving
          act,      \* what the handler does with each request: "answer", "crash", "quiet" or "hold"
          backlog,  \* connections waiting to be accepted
          proc,     \* the process of each connection: "none", "read", "scan", "run", "dead"
          at        \* the route it looks at

vars == <<srv, plan, cl, sent, fin, tried, ran, out, act, backlog, proc, at>>
A == INSTANCE Serving
server == <<backlog, proc, at>>

Init == /\ srv \in Servers /\ plan \in [Conns -> Plans] /\ act \in [Conns -> Acts]
        /\ A!Start /\ backlog = <<>> /\ proc = [c \in Conns |-> "none"] /\ at = [c \in Conns |-> 1]

Connect(c) == A!Connect(c) /\ backlog' = Append(backlog, c) /\ UNCHANGED <<act, proc, at>>
Send(c) == A!Send(c) /\ UNCHANGED <<act, server>>
Fin(c) == A!Fin(c) /\ UNCHANGED <<act, server>>
Vanish(c) == A!Vanish(c) /\ UNCHANGED <<act, server>>

\* the accept loop: nothing but accepting and spawning
Accept == /\ backlog # <<>>
          /\ proc' = [proc EXCEPT ![Head(backlog)] = "read"]
          /\ backlog' = Tail(backlog)
          /\ UNCHANGED <<srv, plan, cl, sent, fin, tried, ran, out, act, at>>

Rest == UNCHANGED <<srv, plan, cl, sent, fin, act, backlog>>
Finish(c, x) == /\ out' = [out EXCEPT ![c] = <<x>>] /\ proc' = [proc EXCEPT ![c] = "dead"]
                /\ UNCHANGED <<tried, ran, at>> /\ Rest
\* taking the request in: waits until the head is there or the stream has ended
Read(c) ==
  /\ proc[c] = "read"
  /\ \/ /\ sent[c] >= plan[c].head /\ plan[c].kind \in {"ok", "free"}
        /\ proc' = [proc EXCEPT ![c] = IF srv.mode = "foreach" THEN "run" ELSE "scan"]
        /\ ran' = IF srv.mode = "foreach" THEN [ran EXCEPT ![c] = Append(@, srv.routes[1][2])] ELSE ran
        /\ UNCHANGED <<tried, out, at>> /\ Rest
     \/ /\ sent[c] >= plan[c].head /\ plan[c].kind \in {"bad", "free"}
        /\ Finish(c, "400")
     \/ /\ (plan[c].kind = "cut" \/ sent[c] < plan[c].head) /\ (fin[c] \/ cl[c] = "gone")
        /\ Finish(c, IF cl[c] = "gone" THEN "nothing" ELSE "400")
\* one route
Scan(c) ==
  /\ proc[c] = "scan"
  /\ IF at[c] > Len(srv.routes) THEN Finish(c, "nothing")
     ELSE LET m == srv.routes[at[c]][1] IN
          IF m \notin tried[c] THEN /\ tried' = [tried EXCEPT ![c] = @ \cup {m}]
                                    /\ UNCHANGED <<ran, out, proc, at>> /\ Rest
          ELSE IF m \in plan[c].boom THEN Finish(c, "nothing")
          ELSE IF m \in plan[c].acc
          THEN /\ ran' = [ran EXCEPT ![c] = Append(@, srv.routes[at[c]][2])] /\ proc' = [proc EXCEPT ![c] = "run"]
               /\ UNCHANGED <<tried, out, at>> /\ Rest
          ELSE at' = [at EXCEPT ![c] = @ + 1] /\ UNCHANGED <<tried, ran, out, proc>> /\ Rest
Run(c) == /\ proc[c] = "run" /\ act[c] # "hold"
          /\ Finish(c, IF act[c] = "answer" THEN "answer" ELSE "nothing")
Step(c) == Read(c) \/ Scan(c) \/ Run(c)

Next == Accept \/ \E c \in Conns : Connect(c) \/ Send(c) \/ Fin(c) \/ Vanish(c) \/ Step(c)
\* clients owe nothing; the accept loop and every process make progress
Spec == Init /\ [][Next]_vars /\ WF_vars(Accept) /\ \A c \in Conns : WF_vars(Step(c))

(* ------------------------------- properties -------------------------------- *)
Implements == [][A!Next]_<<srv, plan, cl, sent, fin, tried, ran, out>>
Safe == A!BadNeverReached /\ A!OnceAndFirst /\ A!NoRouteNoHandler /\ A!OneAnswer
\* C07: whatever the others do
Whole(c) == cl[c] # "new" /\ sent[c] >= plan[c].head
Fate(c) == CASE plan[c].kind = "ok" -> IF A!First(c) = 0 \/ A!Booms(c) \/ act[c] \in {"crash", "quiet"} THEN {<<"nothing">>} ELSE {<<"answer">>}
             [] plan[c].kind = "bad" -> {<<"400">>}
             [] OTHER -> {<<"400">>, <<"answer">>, <<"nothing">>}
EveryoneServed == \A c \in Conns :
  /\ (Whole(c) /\ plan[c].kind \in {"ok", "bad"} /\ (plan[c].kind = "bad" \/ A!First(c) = 0 \/ A!Booms(c) \/ act[c] # "hold"))
        ~> out[c] \in Fate(c)
  /\ (plan[c].kind = "cut" /\ fin[c] /\ cl[c] = "open") ~> (out[c] = <<"400">> \/ cl[c] = "gone")
AlwaysAccepting == \A c \in Conns : (cl[c] # "new") ~> (proc[c] # "none")
=============================================================================
