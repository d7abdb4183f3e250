--------------------------- MODULE Gen_WebSocket ---------------------------
(* Generates histories of a connection (client frames, application steps, losses) for replay on the    *)
(* real code: TLC's simulator walks this machine, which follows WsSession so that only waiting reads   *)
(* are expected to wait, and prints each history when it ends.                                         *)
EXTENDS WsSession, Json, IOUtils, SequencesExt

fr(op, fin, data) == [st |-> "ok", op |-> op, fin |-> fin, rsv |-> {}, data |-> data, next |-> 0]
Rep(n, b) == [i \in 1..n |-> b]
Profile == IOEnv.PROFILE
Utf == {<<>>, <<97>>, <<195, 169>>, <<195>>, <<169>>, <<240, 159>>, <<152, 128>>, <<97, 98, 99>>, <<255>>, <<237, 160, 128>>}
DataFrames == {fr(op, fin, d) : op \in {"text", "bin", "cont"}, fin \in BOOLEAN, d \in Utf}
ControlFrames == {fr("ping", TRUE, d) : d \in {<<>>, <<7>>, <<255, 0, 13, 10>>, Rep(125, 65)}}
                 \cup {fr("pong", TRUE, d) : d \in {<<>>, <<9>>, <<255>>}}
CloseFrames == {fr("close", TRUE, d) : d \in {<<>>, <<3, 232>>, <<3, 233, 98, 121, 101>>}}
BadFrames == {fr("reserved", TRUE, <<>>), fr("reserved", FALSE, <<1>>), fr("ping", FALSE, <<1>>), fr("pong", FALSE, <<>>), fr("close", FALSE, <<>>),
              fr("ping", TRUE, Rep(126, 1)), fr("close", TRUE, Rep(130, 2)), fr("pong", TRUE, Rep(127, 3))}
             \cup {[fr(op, fin, <<98>>) EXCEPT !.rsv = {i}] : op \in {"text", "cont", "ping", "close", "pong"}, i \in 1..3, fin \in BOOLEAN}
\* frames that are well formed where the connection stands
Completable(d) == \E x \in {<<>>, <<169>>, <<152, 128>>} : ValidUtf8(d \o x)
Fitting(c) == {f \in DataFrames : LET d == Receive(c, f).conn IN
                 d.st = "open" /\ (d.part # <<>> /\ d.part[1].op = "text" => Completable(d.part[1].data))}

VARIABLES conn, pend, over, wait, hist, n
vars == <<conn, pend, over, wait, hist, n>>
Init == conn = Fresh /\ pend = <<>> /\ over = FALSE /\ wait = FALSE /\ hist = <<>> /\ n = 0

Add(h) == hist' = Append(hist, h) /\ n' = n + 1
MaxSteps == 24

\* where the connection will stand when all that is pending has been taken
RECURSIVE After(_, _)
After(c, p) == IF p = <<>> \/ c.st # "open" THEN c ELSE After(Receive(c, Head(p)).conn, Tail(p))
\* taking frames until one gives a result
RECURSIVE Take(_, _)
Take(c, p) == IF c.st # "open" THEN [conn |-> c, pend |-> p, r |-> "closed"]
              ELSE IF p = <<>> THEN [conn |-> IF over THEN Broken ELSE c, pend |-> p, r |-> IF over THEN "err" ELSE "blocked"]
              ELSE LET d == Receive(c, Head(p)) IN
                   IF d.res = More THEN Take(d.conn, Tail(p)) ELSE [conn |-> d.conn, pend |-> Tail(p), r |-> d.res.r]

Frames == LET c == After(conn, pend) IN
  CASE Profile = "good" -> Fitting(c) \cup ControlFrames
    [] Profile = "ping" -> ControlFrames \cup RandomElement({Fitting(c), ControlFrames})
    [] Profile = "close" -> Fitting(c) \cup ControlFrames \cup (IF RandomElement(1..4) = 1 THEN CloseFrames ELSE {})
    [] Profile = "bad" -> IF RandomElement(1..5) = 1 THEN BadFrames
                          ELSE IF RandomElement(1..8) = 1 THEN DataFrames ELSE Fitting(c) \cup ControlFrames
    [] OTHER -> Fitting(c) \cup ControlFrames

Tx == /\ ~over /\ Len(pend) < 5 /\ n < MaxSteps
      /\ \E f \in {RandomElement(Frames)} : LET t == Take(conn, Append(pend, f)) IN
            /\ Add([c |-> "tx", op |-> f.op, fin |-> f.fin, rsv |-> SetToSeq(f.rsv), data |-> f.data])
            /\ IF wait /\ t.r # "blocked"
               THEN conn' = t.conn /\ pend' = t.pend /\ wait' = FALSE
               ELSE pend' = Append(pend, f) /\ UNCHANGED <<conn, wait>>
            /\ UNCHANGED over
\* the stream ends, after a part of one more frame
Over == /\ ~over /\ n > 2 /\ Profile \in {"loss", "mixed"} /\ RandomElement(1..3) = 1
        /\ \E f \in {RandomElement(Fitting(After(conn, pend)) \cup ControlFrames)}, part \in {RandomElement(0..6)},
              how \in {RandomElement({"fin", "FIN", "Fin", "gone", "rst"})} :
              Add([c |-> "over", how |-> how, op |-> f.op, fin |-> f.fin, data |-> f.data, part |-> part])
        /\ over' = TRUE /\ wait' = FALSE
        /\ IF wait THEN conn' = Broken /\ UNCHANGED pend ELSE UNCHANGED <<conn, pend>>
Read_ == /\ ~wait
         /\ LET t == Take(conn, pend) IN
            /\ t.r = "blocked" => (n < MaxSteps - 2 /\ RandomElement(1..5) = 1)
            /\ (conn.st # "open") => RandomElement(1..3) = 1
            /\ Add([c |-> IF t.r = "blocked" THEN "wait" ELSE "next"])
            /\ wait' = (t.r = "blocked")
            /\ IF t.r = "blocked" THEN UNCHANGED <<conn, pend>> ELSE conn' = t.conn /\ pend' = t.pend
         /\ UNCHANGED over
Send == /\ ~wait /\ conn.st = "open" /\ n < MaxSteps /\ RandomElement(1..3) = 1
        /\ \E t \in {RandomElement({"text", "bin", "ping", "pong"})},
              d \in {RandomElement({<<>>, <<104, 105>>, <<195, 169>>, Rep(125, 66), Rep(126, 67), Rep(300, 68)})} :
              Add([c |-> "send", t |-> t, data |-> d])
        /\ UNCHANGED <<conn, pend, over, wait>>
Move == /\ ~wait /\ n < MaxSteps /\ RandomElement(1..4) = 1
        /\ \E h \in {RandomElement({"move", "copy"})} : Add([c |-> h]) /\ UNCHANGED <<conn, pend, over, wait>>
CloseApp == /\ ~wait /\ n >= RandomElement(2..(3 * MaxSteps)) /\ Add([c |-> "close"]) /\ conn' = [st |-> "done", part |-> <<>>]
            /\ UNCHANGED <<pend, over, wait>>
Skip == n' = n + 1 /\ UNCHANGED <<conn, pend, over, wait, hist>>
Stop == /\ conn.st = "done" \/ n >= MaxSteps \/ (wait /\ n >= MaxSteps - 1)
        /\ PrintT("BEHAVIOUR " \o ToJson(hist))
        /\ conn' = [st |-> "printed", part |-> <<>>] /\ UNCHANGED <<pend, over, wait, hist, n>>
Next == conn.st # "printed" /\ IF conn.st = "done" \/ n >= MaxSteps \/ (wait /\ n >= MaxSteps - 1) THEN Stop
        ELSE Skip \/ Tx \/ Tx \/ Over \/ Read_ \/ Send \/ Move \/ CloseApp
Spec == Init /\ [][Next]_vars
=============================================================================
