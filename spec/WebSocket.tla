----------------------------- MODULE WebSocket -----------------------------
(* A WebSocket connection: a client that sends frames (well behaved or not) and may go away, and an   *)
(* application that reads, sends and closes.  Design-level statement of C14 to C19.                    *)
EXTENDS WsSession, FiniteSets, SequencesExt

CONSTANTS Alphabet,      \* frames a client may send
          Outgoing,      \* messages [op, data] an application may send
          MaxFrames, MaxSends

VARIABLES cs,            \* frames the client has sent (history)
          k,             \* how many of them have been consumed
          over,          \* the client has gone (its stream has ended, possibly inside a frame)
          conn,          \* see WsSession
          got,           \* what the application's reads returned (history)
          outs,          \* frames sent to the client (history)
          asent,         \* messages the application sent (history)
          done           \* the application has closed
vars == <<cs, k, over, conn, got, outs, asent, done>>

Init == cs = <<>> /\ k = 0 /\ over = FALSE /\ conn = Fresh /\ got = <<>> /\ outs = <<>> /\ asent = <<>> /\ done = FALSE

ClientSends(f) == /\ ~over /\ Len(cs) < MaxFrames
                  /\ cs' = Append(cs, f)
                  /\ UNCHANGED <<k, over, conn, got, outs, asent, done>>
ClientGoes == /\ ~over /\ over' = TRUE
              /\ UNCHANGED <<cs, k, conn, got, outs, asent, done>>

\* a step of a read: the connection looks at the next frame
Consume == /\ ~done /\ conn.st = "open" /\ k < Len(cs)
           /\ LET d == Receive(conn, cs[k+1]) IN
              /\ conn' = d.conn
              /\ got' = IF d.res = More THEN got ELSE Append(got, d.res)
              /\ outs' = outs \o d.out
           /\ k' = k + 1
           /\ UNCHANGED <<cs, over, asent, done>>
\* ... or at the end of the stream
Lost == /\ ~done /\ conn.st = "open" /\ k = Len(cs) /\ over
        /\ conn' = Broken /\ got' = Append(got, Error)
        /\ UNCHANGED <<cs, k, over, outs, asent, done>>
\* reading a connection which is not open any more
Again == /\ ~done /\ conn.st # "open" /\ Cardinality({i \in DOMAIN got : got[i] = Closed}) < 2
         /\ got' = Append(got, Closed)
         /\ UNCHANGED <<cs, k, over, conn, outs, asent, done>>
AppSends(m) == /\ ~done /\ conn.st = "open" /\ Len(asent) < MaxSends
               /\ asent' = Append(asent, m) /\ outs' = Append(outs, m)
               /\ UNCHANGED <<cs, k, over, conn, got, done>>
AppCloses == /\ ~done /\ done' = TRUE
             /\ \/ conn.st # "closed" /\ outs' = Append(outs, [op |-> "close", data |-> <<>>])
                \/ conn.st # "open" /\ UNCHANGED outs
             /\ UNCHANGED <<cs, k, over, conn, got, asent>>

Next == \/ \E f \in Alphabet : ClientSends(f)
        \/ ClientGoes \/ Consume \/ Lost \/ Again \/ AppCloses
        \/ \E m \in Outgoing : AppSends(m)
Spec == Init /\ [][Next]_vars /\ WF_vars(Consume) /\ WF_vars(Lost)

(* ------------------------------------ properties ------------------------------------ *)
F == SubSeq(cs, 1, k)
Data == {"text", "bin"}
\* frame i of F breaks a rule, all those before it being in order
Inside(i) == \* an unfinished message is open when frame i arrives
  \E s \in 1..(i-1) : F[s].op \in Data /\ \A j \in s..(i-1) : F[j].op \in Control \/ ~F[j].fin
Start(i) == CHOOSE s \in 1..i : F[s].op \in Data /\ \A j \in (s+1)..i : F[j].op \notin Data
Payload(s, e) == FoldSeq(LAMBDA f, acc : acc \o (IF f.op \in Control THEN <<>> ELSE f.data), <<>>, SubSeq(F, s, e))
Violates(i) == LET f == F[i] IN
  \/ Forbidden(f)
  \/ f.op = "cont" /\ ~Inside(i)
  \/ f.op \in Data /\ Inside(i)
  \/ f.op \in Data \cup {"cont"} /\ f.fin /\ (f.op \in Data \/ Inside(i))
     /\ LET s == Start(i) IN F[s].op = "text" /\ ~ValidUtf8(Payload(s, i))
\* the frames up to the first one that ends the conversation
Good == IF \E i \in 1..k : F[i].op = "close" \/ Violates(i)
        THEN (CHOOSE i \in 1..k : (F[i].op = "close" \/ Violates(i)) /\ \A j \in 1..(i-1) : F[j].op # "close" /\ ~Violates(j)) - 1
        ELSE k
\* the messages completed by the good frames, in the order of their last frames
Ends == {i \in 1..Good : F[i].op \in Control \/ F[i].fin}
Expected == [n \in 1..Cardinality(Ends) |->
   LET i == CHOOSE i \in Ends : Cardinality({j \in Ends : j <= i}) = n
   IN IF F[i].op \in Control THEN Message(F[i].op, F[i].data) ELSE Message(F[Start(i)].op, Payload(Start(i), i))]
Messages == SelectSeq(got, LAMBDA r : r.r = "ok")
Pick(s, ops) == SelectSeq(s, LAMBDA m : m.op \in ops)
OfType(s, ts) == SelectSeq(s, LAMBDA m : m.t \in ts)

C14_Delivered == Messages = Expected
C15_Pongs == [i \in DOMAIN Pick(outs, {"pong"}) |-> Pick(outs, {"pong"})[i].data]
             = [i \in DOMAIN OfType(Messages, {"ping"}) |-> OfType(Messages, {"ping"})[i].data]
C16_OneClose == /\ Len(Pick(outs, {"close"})) <= 1
                /\ (conn.st = "closed" => Len(Pick(outs, {"close"})) = 1)
                /\ (done /\ conn.st = "open" => Last(outs).op = "close")
C16_Nothing == \A i \in DOMAIN got : got[i].r \in {"closed", "err"} => \A j \in (i+1)..Len(got) : got[j] = Closed
C17_Errors == /\ (conn.st = "failed") = (Error \in ToSet(got))
              /\ conn.st = "failed" => (Good < k /\ Violates(k)) \/ (over /\ Good = k /\ k = Len(cs))
              /\ (k > 0 /\ Good < k /\ Violates(Good + 1)) => /\ k = Good + 1 /\ conn.st = "failed"
C18_Sent == Pick(outs, {"text", "bin"}) = asent
C19_Ends == over ~> (done \/ conn.st # "open")
=============================================================================
