---------------------------- MODULE HttpMessage ----------------------------
(* What the bytes of an HTTP/1.1 request or response mean to puck.                                  *)
(*                                                                                                   *)
(* Request(w) and Response(w) map *every* byte string (everything that arrives on a connection up to *)
(* its end) to what parsing must make of it:                                                         *)
(*   class "ok"    the message is well formed and is exactly the one described by the other fields   *)
(*   class "bad"   malformed: must be refused (an error, or "empty" where no blank line arrived)     *)
(*   class "cut"   no blank line ever arrives: refused, with an error or as "empty"                  *)
(*   class "free"  forms which RFC 9112 lets a recipient accept or refuse, or URLs that need          *)
(*                 normalisation: any outcome, but the same one for every segmentation; if it is      *)
(*                 accepted the body still is what follows the first empty line.                      *)
EXTENDS Text

MaxHeaders == 20

\* ---- the head ----------------------------------------------------------------------------------
\* position of the last byte of the first empty line; 0: there is none (yet)
HeadEnd(w) == LET i == Find(w, CRLF \o CRLF, 1) IN IF i = 0 THEN 0 ELSE i + 3

Lines(h) == Split(UpTo(h, Len(h) - 4), CRLF)

\* The head contains, before its end, a line that is empty to a recipient that ends lines at LF.
StripCR(s) == IF EndsWith(s, CR) THEN UpTo(s, Len(s) - 1) ELSE s
BlankInside(h) ==
  LET ls == Split(UpTo(h, Len(h) - 4), LF)
  IN \E i \in 2..Len(ls) : StripCR(ls[i]) = "" /\ \E j \in 1..(i-1) : StripCR(ls[j]) # ""

\* one header line -> [cls, n, v]
HeaderLine(s) ==
  LET c == Find(s, ":", 1)
      n == IF c = 0 THEN "" ELSE UpTo(s, c - 1)
      v == IF c = 0 THEN "" ELSE Trim(From(s, c + 1))
  IN [n |-> n, v |-> v,
      cls |-> IF s # "" /\ Ch(s, 1) \in BlankSet THEN "free"                \* obsolete line folding
              ELSE IF c = 0 \/ n = "" \/ ~All(n, TokenSet) THEN "bad"
              ELSE IF Has(v, Byte(0)) THEN "bad"
              ELSE IF Some(v, ControlSet \ {TAB}) THEN "free"              \* includes stray CR or LF
              ELSE IF ~IsUtf8(v) THEN "bad"
              ELSE "ok"]

HeaderLines(ls) == [i \in 1..Len(ls) |-> HeaderLine(ls[i])]

\* the value of the last header line with this exact name / with this name in any letter case
LastExact(hs, n) == hs[CHOOSE i \in 1..Len(hs) : hs[i].n = n /\ \A j \in (i+1)..Len(hs) : hs[j].n # n].v
HeaderSet(hs) == {<<hs[i].n, LastExact(hs, hs[i].n)>> : i \in 1..Len(hs)}
Named(hs, n) == {i \in 1..Len(hs) : Lower(hs[i].n) = n}
LastNamed(hs, n) == LET is == Named(hs, n) IN hs[CHOOSE i \in is : \A j \in is : j <= i].v

\* ---- the length of the body ----------------------------------------------------------------------
\* [kind |-> "none"] no declared length; "len" a declared length; "free" a value which is no numeral
Declared(hs) ==
  IF Named(hs, "content-length") = {} THEN [kind |-> "none", n |-> 0]
  ELSE LET v == LastNamed(hs, "content-length")
       IN IF IsNumeral(v) THEN [kind |-> "len", n |-> Decimal(v)] ELSE [kind |-> "free", n |-> 0]

\* the body of a message whose head is followed by `rest`
BodyOf(d, rest) == IF d.kind = "len" THEN UpTo(rest, Min2(d.n, Len(rest))) ELSE rest

\* ---- the URL --------------------------------------------------------------------------------------
\* unreserved characters and sub-delims: what a reg-name may hold unescaped (RFC 3986, 3.2.2)
LabelSet == AlnumSet \cup Chars("-_~!$&'()*+,;=")
Octet(p) == IsNumeral(p) /\ Len(p) <= 3 /\ Decimal(p) <= 255 /\ (Len(p) > 1 => Ch(p, 1) # "0")
Dotted(ls) == Len(ls) = 4 /\ \A i \in 1..4 : Octet(ls[i])
GoodPort(p) == IsNumeral(p) /\ Decimal(p) \in 1..65535 /\ Ch(p, 1) # "0"
HostParts(h) == LET c == Find(h, ":", 1)
                IN IF c = 0 THEN [name |-> h, port |-> ""] ELSE [name |-> UpTo(h, c - 1), port |-> From(h, c + 1)]
\* A host name whose URL form is its lower-case form, or an IPv4 address in its usual form (no punycode,
\* no empty labels, no other way of writing an IPv4 address).
PlainHost(h) ==
  LET p == HostParts(h)
      ls == Split(p.name, ".")
  IN /\ \/ Dotted(ls)
        \/ /\ \A i \in 1..Len(ls) : /\ ls[i] # "" /\ All(ls[i], LabelSet)
                                     /\ Ch(ls[i], 1) # "-" /\ Ch(ls[i], Len(ls[i])) # "-"
                                     /\ ~StartsWith(Lower(ls[i]), "xn--")
           /\ Ch(ls[Len(ls)], 1) \in AlphaSet
     /\ p.port = "" => ~Has(h, ":")
     /\ p.port # "" => GoodPort(p.port)
HostText(h, defaultPort) ==
  LET p == HostParts(h)
  IN Lower(p.name) \o (IF p.port = "" \/ p.port = defaultPort THEN "" ELSE ":" \o p.port)

\* How a URL writes a path and a query (the URL standard): dot segments are resolved, and the characters
\* which a URL has to escape are.  "^" is left out: what is done with it changed over time.
PathSet == VCharSet \ {"#", "?", "\\", "^"}
QuerySet == VCharSet \ {"#", "\\", "^"}
PathCodes == [c \in {"\"", "<", ">", "`", "{", "}"} |->
              CASE c = "\"" -> "%22" [] c = "<" -> "%3C" [] c = ">" -> "%3E" [] c = "`" -> "%60" [] c = "{" -> "%7B" [] OTHER -> "%7D"]
QueryCodes == [c \in {"\"", "<", ">", "'"} |->
               CASE c = "\"" -> "%22" [] c = "<" -> "%3C" [] c = ">" -> "%3E" [] OTHER -> "%27"]
Escape(s, codes) == IF Some(s, DOMAIN codes)
                    THEN Cat([i \in 1..Len(s) |-> IF Ch(s, i) \in DOMAIN codes THEN codes[Ch(s, i)] ELSE Ch(s, i)])
                    ELSE s
Dot == {".", "%2e"}
DotDot == {"..", ".%2e", "%2e.", "%2e%2e"}
RECURSIVE Resolve(_, _)
Resolve(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET s == Lower(Head(todo))
           up == IF done = <<>> THEN <<>> ELSE SubSeq(done, 1, Len(done) - 1)
           end == IF Len(todo) = 1 THEN <<"">> ELSE <<>>
       IN IF s \in Dot THEN Resolve(done \o end, Tail(todo))
          ELSE IF s \in DotDot THEN Resolve(up \o end, Tail(todo))
          ELSE Resolve(Append(done, Head(todo)), Tail(todo))
PlainPath(p) == p # "" /\ Ch(p, 1) = "/" /\ All(p, PathSet)
PathText(p) == LET e == Escape(p, PathCodes)
                   ss == Tail(Split(e, "/"))
               IN IF \E i \in 1..Len(ss) : Lower(ss[i]) \in Dot \cup DotDot
                  THEN LET r == Resolve(<<>>, ss) IN Cat([i \in 1..Len(r) |-> "/" \o r[i]])
                  ELSE e

\* [cls, url, path, query] of a target (query "#" : there is none)
NoUrl(c) == [cls |-> c, url |-> "", path |-> "", query |-> ""]
OriginUrl(scheme, host, port, t) ==
  LET q == Find(t, "?", 1)
      p == IF q = 0 THEN t ELSE UpTo(t, q - 1)
      qs == IF q = 0 THEN "" ELSE From(t, q + 1)
  IN IF PlainHost(host) /\ PlainPath(p) /\ All(qs, QuerySet)
     THEN LET path == PathText(p)
              query == Escape(qs, QueryCodes)
          IN [cls |-> "ok", url |-> scheme \o "://" \o HostText(host, port) \o path \o (IF q = 0 THEN "" ELSE "?" \o query),
              path |-> path, query |-> IF q = 0 THEN "#" ELSE query]
     ELSE NoUrl("free")
AbsUrl(scheme, port, rest) ==
  LET s == Find(rest, "/", 1)
  IN IF s = 0 THEN NoUrl("free")
     ELSE OriginUrl(scheme, UpTo(rest, s - 1), port, From(rest, s))
UrlOf(method, target, host) ==
  IF StartsWith(target, "/") THEN OriginUrl("http", host, "80", target)
  ELSE IF StartsWith(target, "http://") THEN AbsUrl("http", "80", From(target, 8))
  ELSE IF StartsWith(target, "https://") THEN AbsUrl("https", "443", From(target, 9))
  ELSE IF method = "CONNECT" THEN
       IF PlainHost(host)
       THEN [cls |-> "ok", url |-> "http://" \o HostText(host, "80") \o "/", path |-> "/", query |-> "#"]
       ELSE NoUrl("free")
  ELSE NoUrl("free")

\* ---- request line ----------------------------------------------------------------------------------
\* puck reports the three methods it knows by name; any other one verbatim
MethodOf(m) == IF m \in {"GET", "POST", "HEAD"} THEN m ELSE "other:" \o m
MethodFree(m) == m \notin {"GET", "POST", "HEAD"} /\ Lower(m) \in {"get", "post", "head"}

RequestLine(s) ==
  LET a == Find(s, " ", 1)
      m == IF a = 0 THEN s ELSE UpTo(s, a - 1)
      r == IF a = 0 THEN "" ELSE From(s, a + 1)
      b == Find(r, " ", 1)
      t == IF b = 0 THEN r ELSE UpTo(r, b - 1)
      v == IF b = 0 THEN "" ELSE From(r, b + 1)
  IN [m |-> m, t |-> t,
      cls |-> IF Has(s, CR) \/ Has(s, LF) THEN "free"
              ELSE IF m = "" \/ ~All(m, TokenSet) THEN "bad"
              ELSE IF a = 0 \/ b = 0 THEN "bad"
              ELSE IF t = "" THEN "free"                       \* more than one space
              ELSE IF Some(t, ControlSet) THEN "bad"
              ELSE IF ~All(t, VCharSet) THEN "free"
              ELSE IF v = "HTTP/1.1" THEN IF MethodFree(m) THEN "free" ELSE "ok"
              ELSE IF v = "HTTP/1.0" THEN "free"
              ELSE IF EndsWith(v, " ") \/ StartsWith(v, " ") THEN "free"
              ELSE "bad"]

\* A stray CR or LF inside a line, or a folded line: where the lines begin and end is up to the recipient.
Loose(ls) == \E i \in 1..Len(ls) : Has(ls[i], LF) \/ Has(ls[i], CR) \/ StartsWith(ls[i], " ") \/ StartsWith(ls[i], TAB)

Refused(c) == [class |-> c, head |-> 0]

Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "free" \in S THEN "free" ELSE "ok"

Request(w) ==
  LET e == HeadEnd(w) IN
  IF e = 0 THEN Refused("cut")
  ELSE LET h == UpTo(w, e) IN
  IF StartsWith(h, CRLF) \/ StartsWith(h, LF) THEN [class |-> "free", head |-> e]
  ELSE IF BlankInside(h) THEN Refused("bad")
  ELSE LET ls == Lines(h)
           rl == RequestLine(ls[1])
           hs == HeaderLines(Tail(ls))
           hc == {hs[i].cls : i \in 1..Len(hs)}
           nohost == Named(hs, "host") = {}
           d == Declared(hs)
           url == IF nohost THEN NoUrl("bad") ELSE UrlOf(rl.m, rl.t, LastNamed(hs, "host"))
           c == Worst({rl.cls, url.cls} \cup hc
                      \cup (IF Len(hs) > MaxHeaders THEN {"bad"} ELSE {}))
       IN IF c = "bad" THEN IF Loose(ls) THEN [class |-> "free", head |-> e] ELSE Refused("bad")
          ELSE IF c = "free" THEN [class |-> "free", head |-> e]
          ELSE [class |-> "ok", head |-> e, method |-> MethodOf(rl.m), url |-> url.url,
                path |-> url.path, query |-> url.query, headers |-> HeaderSet(hs), decl |-> d,
                body |-> BodyOf(d, From(w, e + 1))]

\* ---- status line ------------------------------------------------------------------------------------
ReasonSet == VCharSet \cup BlankSet
StatusLine(s) ==
  LET code == IF Len(s) >= 12 THEN SubSeq(s, 10, 12) ELSE ""
      reason == IF Len(s) >= 14 THEN From(s, 14) ELSE ""
  IN [status |-> IF IsNumeral(code) THEN Decimal(code) ELSE 0, reason |-> reason,
      cls |-> IF Has(s, CR) \/ Has(s, LF) THEN "free"
              ELSE IF ~StartsWith(s, "HTTP/1.") THEN "bad"
              ELSE IF StartsWith(s, "HTTP/1.0 ") THEN "free"
              ELSE IF ~StartsWith(s, "HTTP/1.1 ") THEN "bad"
              ELSE IF ~All(code, DigitSet) \/ code = "" THEN (IF Has(s, "  ") THEN "free" ELSE "bad")
              ELSE IF Ch(code, 1) = "0" THEN "free"
              ELSE IF Len(s) = 12 THEN "free"
              ELSE IF Ch(s, 13) # " " THEN "bad"
              ELSE IF ~All(reason, ReasonSet) THEN "free"
              ELSE IF StartsWith(reason, " ") \/ EndsWith(reason, " ") \/ Has(reason, TAB) THEN "free"
              ELSE "ok"]

Response(w) ==
  LET e == HeadEnd(w) IN
  IF e = 0 THEN Refused("cut")
  ELSE LET h == UpTo(w, e) IN
  IF StartsWith(h, CRLF) \/ StartsWith(h, LF) THEN [class |-> "free", head |-> e]
  ELSE IF BlankInside(h) THEN Refused("bad")
  ELSE LET ls == Lines(h)
           sl == StatusLine(ls[1])
           hs == HeaderLines(Tail(ls))
           hc == {hs[i].cls : i \in 1..Len(hs)}
           d == Declared(hs)
           c == Worst({sl.cls} \cup hc \cup (IF Len(hs) > MaxHeaders THEN {"bad"} ELSE {}))
       IN IF c = "bad" THEN IF Loose(ls) THEN [class |-> "free", head |-> e] ELSE Refused("bad")
          ELSE IF c = "free" THEN [class |-> "free", head |-> e]
          ELSE [class |-> "ok", head |-> e, status |-> sl.status, reason |-> sl.reason,
                headers |-> HeaderSet(hs), decl |-> d, body |-> BodyOf(d, From(w, e + 1))]
=============================================================================
