-------------------------- MODULE Trace_WebSocket --------------------------
(* Validates recorded histories of WebSocket connections against WsSession.  A session is the bytes   *)
(* a client sent and the events, in order: what arrived, what the application did and saw, and what    *)
(* the client received.                                                                               *)
EXTENDS WsSession, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, sent, over, gone, conn, pos, out
vars == <<t, l, sent, over, gone, conn, pos, out>>
S == Sessions[t]
E == S.runs[l]

Init == /\ t \in 1..Len(Sessions) /\ l = 1
        /\ sent = 0 /\ over = FALSE /\ gone = FALSE /\ conn = Fresh /\ pos = 1
        /\ out = <<>>             \* the frames which must have been sent; opt: may be missing

Go == l' = l + 1 /\ UNCHANGED t
Is(e) == l <= Len(S.runs) /\ E.e = e

Tx == Is("tx") /\ sent' = sent + E.n /\ sent' <= Len(S.wire) /\ Go /\ UNCHANGED <<over, gone, conn, pos, out>>
\* the client ends its direction of the stream / vanishes
Over == Is("over") /\ over' = TRUE /\ Go /\ UNCHANGED <<sent, gone, conn, pos, out>>
Gone == Is("gone") /\ over' = TRUE /\ gone' = TRUE /\ Go /\ UNCHANGED <<sent, conn, pos, out>>

\* Message::next, which keeps nothing between calls, cannot return from inside a message
Interrupted(d) == S.stateless /\ d.conn.part # <<>>
D == LET d == Read(conn, S.wire, sent, pos, over)
     IN IF d.res.r = "ok" /\ Interrupted(d) THEN [conn |-> Broken, pos |-> d.pos, res |-> Error, out |-> <<>>] ELSE d

Res == [r |-> E.r, t |-> E.t, data |-> E.data]
\* (binding D and comparing conditions with TRUE makes TLC evaluate them once)
Next_ == /\ Is("next")
         /\ \E d \in {D} :
            \/ /\ Res = d.res
               /\ conn' = d.conn /\ pos' = d.pos /\ out' = out \o (IF S.stateless THEN <<>> ELSE d.out)
            \/ /\ Res = Error /\ Res # d.res
               /\ d.res.r = "either" \/ (gone /\ conn.st = "open")
               /\ conn' = Broken /\ UNCHANGED <<pos, out>>
         /\ Go /\ UNCHANGED <<sent, over, gone>>
\* the application waits in a read
\* (a scripted stream that keeps silent: an error or a wait)
Stalled == Is("stalled") /\ D.res.r \in {"blocked", "either", "err"} /\ Go /\ UNCHANGED <<sent, over, gone, conn, pos, out>>
Blocked == Is("blocked") /\ D.res.r \in {"blocked", "either"} /\ Go /\ UNCHANGED <<sent, over, gone, conn, pos, out>>

Send == /\ Is("send")
        /\ E.r = "ok" \/ gone
        /\ out' = out \o <<[op |-> E.t, data |-> E.data, opt |-> FALSE]>>
        /\ Go /\ UNCHANGED <<sent, over, gone, conn, pos>>

Close == /\ Is("close")
         /\ E.r = "ok" \/ gone
         /\ out' = IF conn.st = "closed" THEN out ELSE out \o <<[op |-> "close", data |-> <<>>, opt |-> conn.st = "failed"]>>
         /\ conn' = Shut
         /\ Go /\ UNCHANGED <<sent, over, gone, pos>>

\* What the client received, in total, up to now: exactly the frames of `out` if it was read to its
\* end, else at least the first ones of them.  A close frame may carry a status and a reason.
RECURSIVE OutFits(_, _, _)
OutFits(b, p, k) ==
  IF k > Len(out) THEN p > Len(b)
  ELSE LET f == out[k]
           opt == "opt" \in DOMAIN f /\ f.opt
           bytes == ServerFrame(f.op, f.data)
           hit == IF f.op = "close"
                  THEN p + 1 <= Len(b) /\ b[p] = 136 /\ b[p+1] <= 125 /\ b[p+1] # 1 /\ p + 1 + b[p+1] <= Len(b)
                  ELSE p + Len(bytes) - 1 <= Len(b) /\ SubSeq(b, p, p + Len(bytes) - 1) = bytes
           n == IF f.op = "close" THEN 2 + b[p+1] ELSE Len(bytes)
       IN IF hit THEN OutFits(b, p + n, k + 1) ELSE opt /\ OutFits(b, p, k + 1)
RECURSIVE PartFits(_, _, _)
PartFits(b, p, k) ==
  IF p > Len(b) THEN TRUE
  ELSE IF k > Len(out) THEN FALSE
  ELSE LET bytes == ServerFrame(out[k].op, out[k].data)
           n == IF out[k].op = "close" /\ p < Len(b) THEN 2 + b[p+1] ELSE Len(bytes)
       IN IF out[k].op = "close" THEN b[p] = 136 /\ PartFits(b, p + n, k + 1)
          ELSE IF Len(b) - p + 1 >= n THEN SubSeq(b, p, p + n - 1) = bytes /\ PartFits(b, p + n, k + 1)
          ELSE SubSeq(b, p, Len(b)) = SubSeq(bytes, 1, Len(b) - p + 1)
Rx == /\ Is("rx")
      /\ (IF E.whole THEN OutFits(E.data, 1, 1) ELSE PartFits(E.data, 1, 1)) = TRUE
      /\ Go /\ UNCHANGED <<sent, over, gone, conn, pos, out>>

Done == l > Len(S.runs) /\ UNCHANGED vars
Spec == Init /\ [][Tx \/ Over \/ Gone \/ Next_ \/ Blocked \/ Stalled \/ Send \/ Close \/ Rx \/ Done]_vars
=============================================================================
