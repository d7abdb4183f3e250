---------------------------- MODULE Trace_Upgrade ----------------------------
(* Validates recorded attempts to upgrade: a session is the bytes of one request; every run of it gives  *)
(* the events seen by the application, what the client received up to the end of the stream, and how      *)
(* the stream ended.  The application closes an upgraded connection at once.                                *)
EXTENDS Upgrade, IOUtils

Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, exp
vars == <<t, l, exp>>
S == Sessions[t]
E == S.runs[l]
Init == t \in 1..Len(Sessions) /\ l = 1 /\ exp = Request(Sessions[t].wire)

CLOSE == Byte(136)
CloseFrame(s) == Len(s) >= 2 /\ Ch(s, 1) = CLOSE /\ ByteOf[Ch(s, 2)] = Len(s) - 2
Upgraded == /\ E.log = <<"handler", "upgraded">>
            /\ Is101(E.rx, exp.headers)
            /\ CloseFrame(Response(E.rx).body)
Refused_ == E.log = <<"handler", "refused">> /\ Is400(E.rx)
Fits == /\ exp.class = "ok" /\ E.end = "eof"
        /\ LET w == Wanted(exp.headers) IN
           CASE w = "yes" -> Upgraded [] w = "no" -> Refused_ [] OTHER -> Upgraded \/ Refused_
Step == l <= Len(S.runs) /\ Fits = TRUE /\ l' = l + 1 /\ UNCHANGED <<t, exp>>
Done == l > Len(S.runs) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
