---------------------------- MODULE HttpIntake -----------------------------
(* How a message is taken in from a connection: bytes arrive in arbitrary pieces, the head is        *)
(* scanned line by line (as the code does), then the body is handed to its reader in reads of        *)
(* arbitrary sizes.  Design-level statement of C02 and C03.                                          *)
(*                                                                                                    *)
(* The peer sends `wire` and then either closes ("eof"), resets ("reset") or keeps silent ("stall").  *)
EXTENDS HttpMessage

CONSTANTS Wires,        \* the byte strings a peer may send
          Ends,         \* how it may go on after them
          Lengths       \* the declared lengths to be considered: -1 none, else the length

VARIABLES wire, end, len,   \* chosen once: the history of the peer
          sent,             \* number of bytes that have arrived
          over,             \* the transport has reported the end
          phase,            \* "head" | "body" | "refused"
          line,             \* start of the line being scanned (1-based)
          used,             \* bytes consumed by the head
          out,              \* body bytes handed out so far
          status            \* "more" | "done" | "error" : what the last body read reported

vars == <<wire, end, len, sent, over, phase, line, used, out, status>>

Arrived == UpTo(wire, sent)

Init == /\ wire \in Wires /\ end \in Ends /\ len \in Lengths
        /\ sent = 0 /\ over = FALSE /\ phase = "head" /\ line = 1 /\ used = 0 /\ out = "" /\ status = "more"

Arrive(n) == /\ ~over /\ n \in 1..(Len(wire) - sent)
             /\ sent' = sent + n
             /\ UNCHANGED <<wire, end, len, over, phase, line, used, out, status>>

Finish == /\ ~over /\ sent = Len(wire) /\ end # "stall"
          /\ over' = TRUE
          /\ UNCHANGED <<wire, end, len, sent, phase, line, used, out, status>>

\* One turn of the scanning loop: a complete line has arrived.
ScanLine == /\ phase = "head"
            /\ LET lf == Find(Arrived, LF, line) IN
               /\ lf # 0
               /\ line' = lf + 1
               /\ IF lf >= 4 /\ SubSeq(Arrived, lf - 3, lf) = CRLF \o CRLF
                  THEN phase' = "body" /\ used' = lf
                  ELSE UNCHANGED <<phase, used>>
            /\ UNCHANGED <<wire, end, len, sent, over, out, status>>

\* The stream ended inside the head.
ScanEnd == /\ phase = "head" /\ over /\ Find(Arrived, LF, line) = 0
           /\ phase' = "refused"
           /\ UNCHANGED <<wire, end, len, sent, over, line, used, out, status>>

Rest == From(wire, used + 1)
Target == IF len = -1 THEN Rest ELSE UpTo(Rest, Min2(len, Len(Rest)))   \* what the body is
Complete == len # -1 /\ Len(out) = len
Available == Min2(sent - used - Len(out), IF len = -1 THEN Len(wire) ELSE len - Len(out))

\* A read with room for n bytes.
Read(n) == /\ phase = "body" /\ status = "more"
           /\ \/ /\ ~Complete /\ n > 0 /\ Available > 0
                 /\ \E k \in 1..Min2(n, Available) : out' = out \o SubSeq(Rest, Len(out) + 1, Len(out) + k)
                 /\ UNCHANGED status
              \/ /\ Complete /\ status' = "done" /\ UNCHANGED out           \* never touches the stream
              \/ /\ ~Complete /\ n > 0 /\ Available = 0 /\ over
                 /\ status' = IF end = "eof" THEN "done" ELSE "error"
                 /\ UNCHANGED out
           /\ UNCHANGED <<wire, end, len, sent, over, phase, line, used>>

Next == (\E n \in 1..Len(wire) : Arrive(n)) \/ Finish \/ ScanLine \/ ScanEnd \/ (\E n \in 1..3 : Read(n))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- properties -------------------------------- *)
\* C02: the head found is the one ending at the first empty line, whatever the segmentation was
HeadIsFirstEmptyLine == phase = "body" => used = HeadEnd(wire)
RefusedOnlyWithoutEmptyLine == phase = "refused" => HeadEnd(wire) = 0
\* C03: the bytes handed out are a prefix of the body, and the whole of it at the end
BodyIsPrefix == phase = "body" => StartsWith(Target, out)
BodyIsWhole == status = "done" => out = Target
ErrorOnlyOnReset == status = "error" => end = "reset"
\* a message that is complete is delivered without any further input: nothing is waited for
Settled == \/ phase = "refused" \/ status # "more"
           \/ (phase = "head" /\ ~over /\ HeadEnd(wire) = 0)
           \/ (phase = "body" /\ ~Complete /\ ~over)
NothingStuck == (~ENABLED Next) => Settled
Terminates == <>[](Settled)
=============================================================================
