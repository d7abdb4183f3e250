------------------------------ MODULE Builders ------------------------------
(* Requests and responses as applications build, change and write them.                               *)
(* A call is [c |-> "header", k, v], [c |-> "headers", h], [c |-> "status", code, reason],            *)
(* [c |-> "method", m] or [c |-> "body", b]; a body is [data, len] with len = -1 where no length is    *)
(* declared.                                                                                           *)
EXTENDS HttpMessage, SequencesExt

SetHeader(h, k, v) == {p \in h : p[1] # k} \cup {<<k, v>>}
\* extending by a list of pairs: the last pair of each name, and what is not named keeps its value
LastPairs(ps) == {ps[i] : i \in {i \in 1..Len(ps) : \A j \in (i + 1)..Len(ps) : ps[j][1] # ps[i][1]}}
SetHeaders(h, ps) == {p \in h : \A i \in 1..Len(ps) : ps[i][1] # p[1]} \cup LastPairs(ps)

BodyBytes(b) == IF b.len < 0 THEN b.data ELSE UpTo(b.data, Min2(b.len, Len(b.data)))

\* documented defaults
NewMessage == [headers |-> {}, method |-> "", status |-> 200, reason |-> "", body |-> ""]

Call(m, c) ==
  CASE c.c = "header" -> [m EXCEPT !.headers = SetHeader(@, c.k, c.v)]
    [] c.c = "headers" -> [m EXCEPT !.headers = SetHeaders(@, c.h)]
    [] c.c = "status" -> [m EXCEPT !.status = c.code, !.reason = c.reason]
    [] c.c = "method" -> [m EXCEPT !.method = c.m]
    [] c.c = "body" -> [m EXCEPT !.body = BodyBytes(c.b)]
RECURSIVE Built(_, _, _)
Built(m, calls, i) == IF i > Len(calls) THEN m ELSE Built(Call(m, calls[i]), calls, i + 1)

\* replace_body / take_body on a message
OCTETS == "application/octet-stream"
Replace(m, b, type) == [m EXCEPT !.body = BodyBytes(b), !.headers = SetHeader(@, "Content-Type", type)]
Take(m, type) == [m EXCEPT !.body = "", !.headers = SetHeader(@, "Content-Type", type)]

\* ---- on the wire -----------------------------------------------------------------------------------
Broken(s) == Has(s, CR) \/ Has(s, LF)
HasLineBreak(m) == Broken(m.reason) \/ \E p \in m.headers : Broken(p[1]) \/ Broken(p[2])
Line1Response(m) == "HTTP/1.1 " \o ToString(m.status) \o " " \o m.reason
Line1Request(m, path, query) ==
  (IF StartsWith(m.method, "other:") THEN From(m.method, 7) ELSE m.method)
  \o " " \o path \o (IF query = "#" THEN "" ELSE "?" \o query) \o " HTTP/1.1"
Fits(line, p) == line \in {p[1] \o ":" \o p[2], p[1] \o ": " \o p[2]}
WireIs(w, line1, headers, body) ==
  LET e == HeadEnd(w) IN
  /\ e # 0
  /\ LET ls == Lines(UpTo(w, e)) IN
     /\ ls[1] = line1
     /\ Len(ls) - 1 = Cardinality(headers)
     /\ \A p \in headers : \E i \in 2..Len(ls) : Fits(ls[i], p)
  /\ From(w, e + 1) = body

\* ---- messages that can be read back ------------------------------------------------------------------
ValidText(v) == /\ IsUtf8(v) /\ ~Some(v, ControlSet \ {TAB}) /\ Trim(v) = v
ValidHeaders(h) == /\ Cardinality(h) <= MaxHeaders
                   /\ \A p \in h : p[1] # "" /\ All(p[1], TokenSet) /\ ValidText(p[2])
Values(h, n) == {p \in h : Lower(p[1]) = n}
OneOrNone(h, n) == Cardinality(Values(h, n)) <= 1
LengthFits(m) == \A p \in Values(m.headers, "content-length") : IsNumeral(p[2]) /\ Decimal(p[2]) = Len(m.body)
PlainMethod(x) == x \in {"GET", "POST", "HEAD"}
                  \/ (StartsWith(x, "other:") /\ LET n == From(x, 7) IN n # "" /\ All(n, TokenSet) /\ ~MethodFree(n) /\ Lower(n) \notin {"get", "post", "head", "connect"})
ReadableRequest(m) ==
  /\ ValidHeaders(m.headers) /\ PlainMethod(m.method)
  /\ Cardinality(Values(m.headers, "host")) = 1 /\ (\A p \in Values(m.headers, "host") : PlainHost(p[2]))
  /\ OneOrNone(m.headers, "content-length") /\ LengthFits(m)
ReadableResponse(m) ==
  /\ ValidHeaders(m.headers) /\ m.status \in 100..999
  /\ All(m.reason, ReasonSet) /\ Trim(m.reason) = m.reason
  /\ Cardinality(Values(m.headers, "content-length")) = 1 /\ LengthFits(m)
=============================================================================
