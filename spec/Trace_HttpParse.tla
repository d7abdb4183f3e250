-------------------------- MODULE Trace_HttpParse --------------------------
(* Validates recorded executions of Request::parse / Response::parse / Body against HttpMessage.     *)
(* A session is one byte string; its runs are executions on it with different segmentations, ends    *)
(* of the stream and read sizes.  Every run must be the one HttpMessage determines; where that       *)
(* leaves the outcome free, all runs of the session must still agree.                                 *)
EXTENDS HttpMessage, BodyReads, IOUtils, SequencesExt

Sessions == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, exp, seen
vars == <<t, l, exp, seen>>

S == Sessions[t]
Run == S.runs[l]

Init == /\ t \in 1..Len(Sessions)
        /\ l = 1
        /\ exp = IF Sessions[t].kind = "request" THEN Request(Sessions[t].wire) ELSE Response(Sessions[t].wire)
        /\ seen = {}

\* ---- outcomes --------------------------------------------------------------------------------------
PairSet(ps) == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}
HeadMatches ==
  /\ Run.r = "ok"
  /\ PairSet(Run.headers) = exp.headers /\ Len(Run.headers) = Cardinality(exp.headers)
  /\ Run.head_stalls = 0
  /\ IF S.kind = "request"
     THEN Run.method = exp.method /\ Run.url = exp.url /\ Run.path = exp.path /\ Run.query = exp.query
     ELSE Run.status = exp.status /\ Run.reason = exp.reason

Conforms ==
  CASE exp.class = "ok" -> /\ HeadMatches
                           /\ (exp.decl.kind # "free" =>
                                BodyFits(Run, exp.body, exp.decl.kind = "len" /\ Len(exp.body) = exp.decl.n))
    [] exp.class = "bad" -> Run.r = "err" /\ Run.stalls = 0
    [] exp.class = "cut" -> Run.r \in (IF Run.end = "eof" THEN {"none", "err"} ELSE {"err"})
    [] exp.class = "free" -> /\ Run.r \in {"ok", "err", "none"}
                             /\ (Run.r = "ok" /\ Run.mode = "reads") =>
                                  StartsWith(From(S.wire, exp.head + 1), Total(Run.reads))

\* The same bytes give the same outcome, however they were split ("key" is the whole reported head or
\* the kind of error; streams that end differently are compared among themselves).
Agrees == \A o \in seen : o[1] = Run.end => o[2] = Run.key

\* the recorded segmentation really is one of the session's bytes
WellRecorded == FoldSeq(LAMBDA x, y : x + y, 0, Run.chunks) = Len(S.wire)

Step == /\ l <= Len(S.runs)
        /\ (WellRecorded /\ Conforms /\ Agrees) = TRUE   \* (as a value: TLC then caches what it needs for it)
        /\ seen' = seen \cup {<<Run.end, Run.key>>}
        /\ l' = l + 1
        /\ UNCHANGED <<t, exp>>
Done == l > Len(S.runs) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
