---------------------------- MODULE MC_WebSocket ----------------------------
EXTENDS WebSocket
fr(op, fin, data) == [st |-> "ok", op |-> op, fin |-> fin, rsv |-> {}, data |-> data, next |-> 0]
\* 195 starts a two-byte UTF-8 character, 169 ends one
MCAlphabet == {fr("text", TRUE, <<97>>), fr("text", TRUE, <<195>>), fr("text", FALSE, <<195>>), fr("bin", FALSE, <<1>>),
               fr("cont", FALSE, <<98>>), fr("cont", TRUE, <<169>>), fr("ping", TRUE, <<7>>), fr("pong", TRUE, <<>>),
               fr("close", TRUE, <<>>), fr("ping", FALSE, <<>>), fr("reserved", TRUE, <<>>),
               [fr("bin", TRUE, <<2>>) EXCEPT !.rsv = {1}]}
MCOutgoing == {[op |-> "text", data |-> <<120>>], [op |-> "bin", data |-> <<>>]}
=============================================================================
