----------------------------- MODULE WsSession -----------------------------
(* What a WebSocket connection does with the frames it reads: the step function of the endpoint.      *)
(* A connection is [st, part]: st is "open", "closed" (by the closing handshake) or "failed"; part is  *)
(* <<>> or <<[op, data]>>, the message being put together.                                            *)
EXTENDS WsFrame

Fresh == [st |-> "open", part |-> <<>>]
Shut == [st |-> "closed", part |-> <<>>]
Broken == [st |-> "failed", part |-> <<>>]

Message(op, data) == [r |-> "ok", t |-> op, data |-> data]
Error == [r |-> "err", t |-> "", data |-> <<>>]
Closed == [r |-> "closed", t |-> "", data |-> <<>>]
More == [r |-> "more", t |-> "", data |-> <<>>]

\* a frame (with st = "ok") that no endpoint may send
Forbidden(f) == f.rsv # {} \/ f.op = "reserved" \/ (f.op \in Control /\ (~f.fin \/ Len(f.data) > 125))

Whole(op, data) == IF op = "text" /\ ~ValidUtf8(data) THEN [conn |-> Broken, res |-> Error, out |-> <<>>]
                   ELSE [conn |-> Fresh, res |-> Message(op, data), out |-> <<>>]
Fail == [conn |-> Broken, res |-> Error, out |-> <<>>]

\* the frame f arrives on connection c: the new connection, what the application reads ("more": the
\* read goes on), and the frames which are sent
Receive(c, f) ==
  IF Forbidden(f) THEN Fail
  ELSE CASE f.op = "close" -> [conn |-> Shut, res |-> Closed, out |-> <<[op |-> "close", data |-> <<>>]>>]
         [] f.op = "ping" -> [conn |-> c, res |-> Message("ping", f.data), out |-> <<[op |-> "pong", data |-> f.data]>>]
         [] f.op = "pong" -> [conn |-> c, res |-> Message("pong", f.data), out |-> <<>>]
         [] f.op \in {"text", "bin"} ->
              IF c.part # <<>> THEN Fail
              ELSE IF f.fin THEN Whole(f.op, f.data)
              ELSE [conn |-> [st |-> "open", part |-> <<[op |-> f.op, data |-> f.data]>>], res |-> More, out |-> <<>>]
         [] f.op = "cont" ->
              IF c.part = <<>> THEN Fail
              ELSE IF f.fin THEN Whole(c.part[1].op, c.part[1].data \o f.data)
              ELSE [conn |-> [st |-> "open", part |-> <<[op |-> c.part[1].op, data |-> c.part[1].data \o f.data]>>],
                    res |-> More, out |-> <<>>]

\* Reading the next item: frames are taken from position p of the first `sent` bytes of w until one
\* gives a result.  over: the client sends no more.  Result: conn, pos, res, out; res "blocked" means that the read
\* waits, "either" that it may report an error already (the violation shows in an incomplete frame).
RECURSIVE Read(_, _, _, _, _)
Read(c, w, sent, p, over) ==
  IF c.st # "open" THEN [conn |-> c, pos |-> p, res |-> Closed, out |-> <<>>]
  ELSE LET f == Frame(w, sent, p) IN
       IF f.st = "bad" THEN [conn |-> Broken, pos |-> p, res |-> Error, out |-> <<>>]
       ELSE IF f.st = "cut"
            THEN IF over THEN [conn |-> Broken, pos |-> p, res |-> Error, out |-> <<>>]
                 ELSE [conn |-> c, pos |-> p, res |-> [Error EXCEPT !.r = IF f.early THEN "either" ELSE "blocked"], out |-> <<>>]
       ELSE LET d == Receive(c, f) IN
            IF d.res = More THEN Read(d.conn, w, sent, f.next, over)
            ELSE [conn |-> d.conn, pos |-> f.next, res |-> d.res, out |-> d.out]
=============================================================================
