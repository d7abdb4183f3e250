-------------------------- MODULE Gen_HttpServer --------------------------
(* Walks HttpServer at random and prints what clients and handlers did, for replay on a real server.     *)
EXTENDS HttpServer, Json, TLC, IOUtils
VARIABLES hist, n
gvars == <<vars, hist, n>>
MaxSteps == 90
P(k, h, m, a, b) == [kind |-> k, head |-> h, pieces |-> m, acc |-> a, boom |-> b]
ConnsDef == 1..5
Usual == {P("ok", h, h + b, a, {}) : h \in 1..3, b \in 0..2, a \in {{0}, {1}, {0, 1, 2}, {2}}}
Odd == {P("ok", 1, 2, {}, {}), P("ok", 2, 2, {1}, {0}), P("ok", 1, 1, {0}, {1})}
Bad == {P("bad", h, h, {}, {}) : h \in 1..3}
CutOff == {P("cut", 99, m, {}, {}) : m \in 0..2}
PlansDef == Usual \cup Odd \cup Bad \cup CutOff
ServersDef == {[mode |-> "foreach", routes |-> <<<<0, 0>>>>],
               [mode |-> "router", routes |-> <<<<0, 0>>, <<1, 1>>, <<2, 2>>>>],
               [mode |-> "router", routes |-> <<<<1, 0>>, <<0, 1>>, <<1, 2>>>>]}
ActsDef == {"answer", "crash", "quiet", "hold"}
NoPlan == P("none", 0, 0, {}, {})
GInit == /\ srv \in ServersDef /\ plan = [c \in Conns |-> NoPlan] /\ act = [c \in Conns |-> "answer"]
         /\ A!Start /\ backlog = <<>> /\ proc = [c \in Conns |-> "none"] /\ at = [c \in Conns |-> 1]
         /\ hist = <<>> /\ n = 0
Pick(c) == /\ plan[c] = NoPlan
           /\ \E p \in {RandomElement(RandomElement({Usual, Usual \cup Odd, Odd, Bad, CutOff}))}, a \in {RandomElement(ActsDef)} :
                plan' = [plan EXCEPT ![c] = p] /\ act' = [act EXCEPT ![c] = a]
           /\ UNCHANGED <<srv, cl, sent, fin, tried, ran, out, backlog, proc, at>>
Add(k, c) == hist' = Append(hist, <<k, c>>)
Real(c) == plan[c] # NoPlan
Client(c) == /\ Real(c)
             /\ \/ Connect(c) /\ Add("connect", c)
                \/ Send(c) /\ Add("send", c)
                \/ RandomElement(1..6) = 1 /\ Fin(c) /\ Add("fin", c)
                \/ RandomElement(1..20) = 1 /\ Vanish(c) /\ Add("vanish", c)
Server(c) == \/ Read(c) /\ (IF out' # out THEN Add("end", c) ELSE UNCHANGED hist)
             \/ Scan(c) /\ (IF out' # out THEN Add("end", c) ELSE UNCHANGED hist)
             \/ Run(c) /\ Add("run", c)
Over == n >= MaxSteps
Stop == /\ Over /\ n' = n + 1000 /\ PrintT("BEHAVIOUR " \o ToJson([srv |-> srv, plan |-> plan, act |-> act, hist |-> hist]))
        /\ UNCHANGED <<vars, hist>>
GNext == \/ Stop
         \/ /\ ~Over
            /\ n' = n + 1
            /\ (Accept /\ UNCHANGED hist) \/ (\E c \in Conns : (Pick(c) /\ UNCHANGED hist) \/ Client(c) \/ Server(c))
                \/ (UNCHANGED vars /\ UNCHANGED hist)
GSpec == GInit /\ [][n < 1000 /\ GNext]_gvars
=============================================================================
