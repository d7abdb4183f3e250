--------------------------- MODULE Trace_Serving ---------------------------
(* Validates recorded histories of a server against Serving: a session is one server and the connections  *)
(* made to it, its runs are the events in the order they were seen: what the clients did, the calls logged *)
(* by matchers and handlers, and what each client had received when its stream ended.                        *)
EXTENDS Serving, Upgrade, IOUtils

Sessions == JsonDeserialize(IOEnv.TRACE)
ConnsDef == 1..Max({Len(Sessions[i].conns) : i \in 1..Len(Sessions)})

VARIABLES t, l, exp
tvars == <<t, l, exp, srv, plan, cl, sent, fin, tried, ran, out>>
S == Sessions[t]
E == S.runs[l]

\* the first piece with which n bytes have been sent
Reaches(ps, n) == LET ks == {k \in 1..Len(ps) : FoldSeq(LAMBDA x, y : x + y, 0, SubSeq(ps, 1, k)) >= n}
                  IN IF ks = {} THEN 99999 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
NoPlan == [kind |-> "none", head |-> 0, pieces |-> 0, acc |-> {}, boom |-> {}]
PlanOf(c, r) == [kind |-> r.class, head |-> IF r.class = "cut" THEN 99999 ELSE Reaches(c.pieces, HeadEnd(c.wire)),
                 pieces |-> Len(c.pieces), acc |-> ToSet(c.acc), boom |-> ToSet(c.boom)]

Init == /\ t \in 1..Len(Sessions) /\ l = 1
        /\ srv = [mode |-> Sessions[t].mode, routes |-> Sessions[t].routes]
        /\ exp = [c \in 1..Len(Sessions[t].conns) |-> Request(Sessions[t].conns[c].wire)]
        /\ plan = [c \in Conns |-> IF c <= Len(Sessions[t].conns) THEN PlanOf(Sessions[t].conns[c], exp[c]) ELSE NoPlan]
        /\ Start

\* ---- what the application saw of the request -----------------------------------------------------------
PairSet(ps) == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}
Saw(c, x) == /\ x.handler = ran[c][1] /\ x.state = S.state
             /\ exp[c].class = "ok" => /\ x.method = exp[c].method /\ x.url = exp[c].url
                                       /\ x.path = exp[c].path /\ x.query = exp[c].query
                                       /\ PairSet(x.headers) = exp[c].headers /\ Len(x.headers) = Cardinality(exp[c].headers)
SentBytes(c) == FoldSeq(LAMBDA x, y : x + y, 0, SubSeq(S.conns[c].pieces, 1, sent[c]))
SawBody(c, x) == exp[c].class = "ok" /\ exp[c].decl.kind # "free" =>
                 x = BodyOf(exp[c].decl, SubSeq(S.conns[c].wire, exp[c].head + 1, SentBytes(c)))

\* ---- what the client received ---------------------------------------------------------------------------
What == IF E.rx = "" THEN "nothing" ELSE IF ran[E.c] = <<>> THEN "400" ELSE "answer"
Answered(c) ==
  /\ E.end = "eof"
  /\ LET r == Response(E.rx) IN
     /\ r.class = "ok" /\ r.decl.kind = "len" /\ r.decl.n = Len(r.body) /\ r.head + r.decl.n = Len(E.rx)
     /\ IF E.told THEN r.status = E.status /\ r.body = E.body
        ELSE /\ r.status = 200 /\ (exp[c].class = "ok" => {p[2] : p \in Called(r.headers, "x-id")} \subseteq {p[2] : p \in Called(exp[c].headers, "x-id")})
             /\ Saw(c, E.echo) /\ SawBody(c, E.echo.body)
Received(c) == CASE What = "400" -> Is400(E.rx) /\ E.end = "eof"
                 [] What = "nothing" -> E.end \in {"eof", "reset"} /\ (E.quiet \/ ran[c] = <<>>)
                 [] OTHER -> Answered(c) /\ ~E.quiet

Happens ==
  CASE E.e = "connect" -> Connect(E.c)
    [] E.e = "send" -> Send(E.c)
    [] E.e = "fin" -> Fin(E.c)
    [] E.e = "vanish" -> Vanish(E.c)
    [] E.e = "match" -> E.c \in Conns /\ Try(E.c, E.i)
    [] E.e = "handler" -> E.c \in Conns /\ E.state = S.state /\ Call(E.c, E.i)
    [] E.e = "hello" -> Saw(E.c, E.echo) = TRUE /\ UNCHANGED vars
    [] E.e = "body" -> SawBody(E.c, E.body) = TRUE /\ UNCHANGED vars
    [] E.e = "got" -> End(E.c, What) /\ Received(E.c) = TRUE
    [] OTHER -> FALSE               \* "silent": what was due has not come
Step == /\ l <= Len(S.runs)
        /\ Happens
        /\ l' = l + 1 /\ UNCHANGED <<t, exp>>
TDone == l > Len(S.runs) /\ UNCHANGED tvars
Spec == Init /\ [][Step \/ TDone]_tvars
Safe == BadNeverReached /\ OnceAndFirst /\ NoRouteNoHandler /\ OneAnswer
=============================================================================
