--------------------------- MODULE MC_HttpServer ---------------------------
EXTENDS HttpServer, TLC
P(k, h, n, a, b) == [kind |-> k, head |-> h, pieces |-> n, acc |-> a, boom |-> b]
ServersDef == {[mode |-> "foreach", routes |-> <<<<0, 0>>>>],
               [mode |-> "router", routes |-> <<<<0, 0>>, <<1, 1>>>>],
               [mode |-> "router", routes |-> <<<<1, 0>>, <<0, 1>>, <<1, 2>>>>]}
PlansDef == {P("ok", 2, 3, {0}, {}), P("ok", 1, 1, {0, 1}, {}), P("ok", 1, 1, {}, {}), P("ok", 1, 1, {1}, {0}),
             P("bad", 2, 2, {}, {}), P("cut", 9, 1, {}, {}), P("free", 1, 1, {1}, {})}
ServersQuick == {[mode |-> "foreach", routes |-> <<<<0, 0>>>>], [mode |-> "router", routes |-> <<<<1, 0>>, <<0, 1>>, <<1, 2>>>>]}
PlansQuick == {P("ok", 1, 2, {0}, {}), P("ok", 1, 1, {1}, {0}), P("bad", 1, 1, {}, {}), P("cut", 9, 1, {}, {})}
ActsQuick == {"answer", "hold"}
PlansBig == {P("ok", 2, 2, {0}, {}), P("bad", 1, 1, {}, {}), P("cut", 9, 1, {}, {})}
ServersBig == {[mode |-> "router", routes |-> <<<<1, 0>>, <<0, 1>>>>]}
ActsDef == {"answer", "crash", "hold"}
=============================================================================
