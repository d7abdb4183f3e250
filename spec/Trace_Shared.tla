---------------------------- MODULE Trace_Shared ----------------------------
(* Validates recorded uses of one WebSocket by several processes.  A session is the frames the client sent,    *)
(* what the reading process' reads returned, the messages the other processes sent, and then, frame by frame,  *)
(* what the client received.  Payloads that were sent are given as runs: <<byte, how often>>.  `stalled`: the   *)
(* client did not read before everything was sent, or all processes waited.                                     *)
EXTENDS WsSession, Json, IOUtils, SequencesExt

Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, at, n, mixed, pongs
vars == <<t, l, at, n, mixed, pongs>>
S == Sessions[t]
E == S.runs[l]

\* the reader's conversation
RECURSIVE Conversation(_, _, _, _)
Conversation(c, i, res, out) ==
  IF i > Len(S.client) THEN [res |-> res, out |-> out]
  ELSE LET f == S.client[i]
           d == Receive(c, [rsv |-> {}, op |-> f.op, fin |-> f.fin, data |-> f.data])
       IN Conversation(d.conn, i + 1, IF d.res = More THEN res ELSE Append(res, d.res), out \o d.out)
Runs(d) == IF d = <<>> THEN <<>>
           ELSE LET starts == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : i = 1 \/ d[i-1] # d[i])
                IN [j \in 1..Len(starts) |-> <<d[starts[j]], (IF j = Len(starts) THEN Len(d) + 1 ELSE starts[j+1]) - starts[j]>>]
Total(segs) == FoldSeq(LAMBDA s, acc : acc + s[2], 0, segs)
FrameHead(op, segs) == <<128 + OpCode[op]>> \o Length(Total(segs))

\* process 1 reads (and answers pings), the others send
Talk == Conversation(Fresh, 1, <<>>, <<>>)
Reads == [i \in 1..Len(S.reads) |-> [r |-> S.reads[i].r, t |-> S.reads[i].t, data |-> S.reads[i].data]]
Pongs(out) == [i \in 1..Len(out) |-> [op |-> out[i].op, segs |-> Runs(out[i].data)]]
Begun(talk) ==
         /\ Reads = talk.res
         /\ \A p \in 1..Len(S.procs) : Len(S.results[p]) = Len(S.procs[p]) /\ \A i \in 1..Len(S.results[p]) : S.results[p][i] = "ok"
Queue(p) == IF p = 1 THEN pongs ELSE S.procs[p-1]

Init == /\ t \in 1..Len(Sessions) /\ l = 1 /\ n = 0 /\ mixed = FALSE /\ pongs = <<>>
        /\ at = [p \in 1..(Len(S.procs) + 1) |-> 0]
Go == l' = l + 1 /\ UNCHANGED t
Is(e) == l <= Len(S.runs) /\ E.e = e /\ ~mixed

Start == /\ Is("start")
         /\ \E talk \in {Talk} : /\ (Begun(talk)) = TRUE
                               /\ pongs' = Pongs(talk.out)
         /\ Go /\ UNCHANGED <<at, n, mixed>>
\* the next frame is the next one of some process
Fits(p) == /\ at[p] < Len(Queue(p))
           /\ LET f == Queue(p)[at[p] + 1] IN E.head = FrameHead(f.op, f.segs) /\ E.data = f.segs
Frame_ == /\ Is("frame")
          /\ \E p \in DOMAIN at : Fits(p) /\ at' = [at EXCEPT ![p] = @ + 1]
          /\ n' = n + Len(E.head) + Total(E.data) /\ Go /\ UNCHANGED <<mixed, pongs>>
End == /\ Is("end") /\ E.rest = 0
       /\ (\A p \in DOMAIN at : at[p] = Len(Queue(p))) = TRUE
       /\ Go /\ UNCHANGED <<at, n, mixed, pongs>>

\* known: a frame which the connection does not take at once, because the client has left more than a megabyte
\* unread, may be interrupted by another one
Knows(f) == \E i \in DOMAIN S.known : S.known[i] = f
Mixed == /\ l <= Len(S.runs) /\ l > 1
         /\ Knows("C29-full") /\ S.stalled /\ n >= 1048576
         /\ mixed \/ (E.e = "frame" /\ ~\E p \in DOMAIN at : Fits(p)) \/ (E.e = "end" /\ E.rest > 0)
         /\ IF mixed THEN TRUE ELSE PrintT("KNOWN C29-full")
         /\ mixed' = TRUE /\ Go /\ UNCHANGED <<at, n, pongs>>

Done == l > Len(S.runs) /\ UNCHANGED vars
Spec == Init /\ [][Start \/ Frame_ \/ End \/ Mixed \/ Done]_vars
=============================================================================
