--------------------------- MODULE Trace_HttpWrite ---------------------------
(* Validates recorded builder histories: what was built, what replacing its body returned, the bytes  *)
(* it was written as, and what parsing those bytes gave back.                                           *)
EXTENDS Builders, IOUtils

Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, m
vars == <<t, l, m>>
S == Sessions[t]
E == S.runs[l]
IsReq == S.kind = "request"

Init == t \in 1..Len(Sessions) /\ l = 1 /\ m = NewMessage
Go == l' = l + 1 /\ UNCHANGED t
Is(e) == l <= Len(S.runs) /\ E.e = e

PairSet(ps) == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}
Headers(ps, h) == PairSet(ps) = h /\ Len(ps) = Cardinality(h)
\* what the message reports about itself
Shows(o, x) == /\ Headers(o.headers, x.headers)
               /\ IF IsReq THEN o.method = x.method /\ o.url = S.url ELSE o.status = x.status /\ o.reason = x.reason

DoCall == Is("call") /\ m' = Call(m, E) /\ Go
Build == /\ Is("built")
         /\ IF IsReq /\ m.method = "" THEN E.r = "nomethod"
            ELSE E.r = "ok" /\ Shows(E, m)
         /\ Go /\ UNCHANGED m
\* the Content-Type a body comes with is left open: only that header may change
TypeOf(ps) == LET is == {i \in 1..Len(ps) : ps[i][1] = "Content-Type"} IN IF is = {} THEN "" ELSE ps[CHOOSE i \in is : TRUE][2]
DoReplace == /\ Is("replace") /\ E.old = m.body
             /\ m' = Replace(m, E.b, TypeOf(E.headers)) /\ Shows(E, m') /\ Go
DoTake == /\ Is("take") /\ E.old = m.body
          /\ m' = Take(m, TypeOf(E.headers)) /\ Shows(E, m') /\ Go
LastBody == Is("last") /\ E.old = m.body /\ Go /\ UNCHANGED m

\* refused: an error, and not so much as a head has been written
Refused_ == E.r \in {"err", "void"} /\ ~Has(E.wire, CRLF \o CRLF)
\* (conditions are compared with TRUE so that TLC evaluates them as values: it does not cache LET
\* definitions and arguments of what could be an action)
WriteOk == IF IsReq THEN (ReadableRequest(m) => E.r = "ok" /\ WireIs(E.wire, Line1Request(m, E.path, E.query), m.headers, m.body))
           ELSE IF HasLineBreak(m) THEN Refused_
           ELSE E.r \in {"ok", "void"} /\ WireIs(E.wire, Line1Response(m), m.headers, m.body)
Write == Is("write") /\ WriteOk = TRUE /\ Go /\ UNCHANGED m
\* parsing what was written (and, for a response, whatever follows it on the stream)
BackOk == IF IsReq THEN ReadableRequest(m) =>
                    /\ E.r = "ok" /\ E.method = m.method /\ E.path = E.opath /\ E.query = E.oquery
                    /\ Headers(E.headers, m.headers) /\ E.body = m.body
          ELSE ReadableResponse(m) =>
                    /\ E.r = "ok" /\ E.status = m.status /\ E.reason = m.reason
                    /\ Headers(E.headers, m.headers) /\ E.body = m.body
ReadBack == Is("back") /\ BackOk = TRUE /\ Go /\ UNCHANGED m
Done == l > Len(S.runs) /\ UNCHANGED vars
Spec == Init /\ [][DoCall \/ Build \/ DoReplace \/ DoTake \/ LastBody \/ Write \/ ReadBack \/ Done]_vars
=============================================================================
