--------------------------- MODULE Trace_WsFrames ---------------------------
(* Validates recorded runs of Frame::parse on a byte stream (one session per byte string, one run per *)
(* segmentation) against WsFrame.                                                                      *)
EXTENDS WsFrame, Json, IOUtils, FiniteSets

Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, exp
S == Sessions[t]
Run == S.runs[l]

\* the frames of w from p on, and how the stream goes on after them
RECURSIVE FramesOf(_, _)
FramesOf(w, p) == LET f == Frame(w, Len(w), p) IN IF f.st = "ok" THEN <<f>> \o FramesOf(w, f.next) ELSE <<f>>

Init == t \in 1..Len(Sessions) /\ l = 0 /\ exp = <<>>
Begin == l = 0 /\ l' = 1 /\ exp' = FramesOf(S.wire, 1) /\ UNCHANGED t

RsvFits(bits, set) == \A i \in 1..3 : bits[i] = -1 \/ bits[i] = B(i \in set)
FrameFits(f, x) == IF x.st # "ok" THEN f.r = "err"
                   ELSE /\ f.r = "ok" /\ f.fin = x.fin /\ f.op = x.op /\ RsvFits(f.rsv, x.rsv)
                        /\ f.data = x.data /\ f.taken = x.next - 1 /\ f.stalls = 0
Step == /\ l \in 1..Len(S.runs)
        /\ Run.r = "ok"
        /\ Len(Run.frames) = Len(exp)
        /\ (\A i \in 1..Len(exp) : FrameFits(Run.frames[i], exp[i])) = TRUE
        /\ l' = l + 1 /\ UNCHANGED <<t, exp>>
Done == l > Len(S.runs) /\ UNCHANGED <<t, l, exp>>
Spec == Init /\ [][Begin \/ Step \/ Done]_<<t, l, exp>>
=============================================================================
