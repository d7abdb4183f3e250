--------------------------- MODULE Gen_HttpParse ---------------------------
(* Enumerates byte strings for the parsers from the grammar and its neighbourhood, with the class    *)
(* HttpMessage gives them (used for coverage accounting only: the verdict on an execution is          *)
(* Trace_HttpParse's).                                                                                *)
EXTENDS HttpMessage, IOUtils, SequencesExt, Randomization

N == Decimal(IOEnv.SAMPLES)

\* A message: first line, header lines, what follows the empty line.
Wire(m) == Cat(<<m.rl, CRLF>> \o [i \in 1..Len(m.hs) |-> m.hs[i] \o CRLF] \o <<CRLF, m.body>>)
WithLf(m) == Cat(<<m.rl, LF>> \o [i \in 1..Len(m.hs) |-> m.hs[i] \o LF] \o <<CRLF, m.body>>)

Base == [rl |-> "GET /a/b?x=1 HTTP/1.1", hs |-> <<"Host: example.com", "X-Y: z">>, body |-> ""]
ResBase == [rl |-> "HTTP/1.1 200 OK", hs |-> <<"Content-Length: 3", "X-Y: z">>, body |-> "abcdef"]

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s
             ELSE LET h == Rep(s, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN s ELSE "")

\* ---- dimensions -------------------------------------------------------------------------------------
Methods == {"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT", "TRACE", "M-SEARCH",
            "X", "!#$%&'*+-.^_`|~09aZ", "get", "Post", "hEAD", "G ET", "GE\tT", "", "G(T", "GET:", "GET/",
            "GETS", "AGET", "POSTX", "HEADER", "connect", "get+", "GE", "GETGET", "HEAD-", "GOT", "PGET"}
Targets == {"/", "/a", "/a/b/c", "/a//b", "//a", "/a/", "/?", "/?q", "/a?b=c&d=%20e", "/a?b?c=/d", "/%41%zz", "/a;b=1",
            "/~u/-._!$&()*+,=:@x", "/a/./b", "/a/../b", "/..", "/.", "/a/..", "/a/.", "/a/b/../../../c", "/a//../b", "/./", "/../", "/a/.%2E/b", "/%2e", "/a/...", "/.a", "/a..", "/a?b/../c", "/<p>?<q>'",
            "http://h.example/a/../b?c", "http://127.0.0.1/x", "http://127.0.0.1:8080/x?y",  "/%2e%2E/c", "/a/%2e", "/a\\b", "/a#f", "/a?b#f",
            "/\"x\"", "/a{b}", "/a|b", "/a'b?c'd", "/a[1]", "/^`",
            "http://example.com/x", "http://example.com/x?y=1", "https://other.org:8443/p/q?r", "http://h.example:80/",
            "https://h.example:443/z", "http://H.Example/Q", "http://example.com", "ftp://example.com/x", "HTTP://example.com/x",
            "http://user@h/x", "httpx://a/", "*", "example.com:80", "a/b", "", "/caf" \o Byte(195) \o Byte(169), "/" \o Byte(127), "/a\tb", "/a" \o Byte(0),
            "/" \o Rep("p", 300), "/p?" \o Rep("q=1&", 100), "/" \o Rep("long/", 40), "/" \o Rep("longer", 1500), "/?" \o Rep("q", 9000)}
Versions == {"HTTP/1.1", "HTTP/1.0", "HTTP/1.2", "HTTP/2.0", "HTTP/0.9", "HTTP/1.1 ", " HTTP/1.1", "http/1.1", "HTTP/1", "HTTP/11", "HTTP/1.1x", "", "X"}
Hosts == {"example.com", "Example.COM", "a", "a.b.c.d", "localhost:8080", "h:80", "h:1", "h:65535", "h:0", "h:65536", "h:080",
          "127.0.0.1", "127.0.0.1:9", "127.0.0.1:8080", "10.0.0.1:80", "255.255.255.255", "256.1.1.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "a,b", "a,b.c:81", "x!$&'()*+;=~_y", "[::1]:80", "", " spaced.org ", "a b", "a_b", "a..b", "xn--a", "-a", "a:b", "u@h", "h/p", "h?q", "h#f", "1a.b2"}
Names == {"X", "x-y", "Accept", "HOST", "host", "Content-Length", "content-LENGTH", "!#$%&'*+-.^_`|~0Zz"}
Values == {"", "v", " v", "v ", "\tv\t", "a b\tc", "a:b", ":", "a=\"b\"; c", "caf" \o Byte(195) \o Byte(169),
           Byte(240) \o Byte(159) \o Byte(152) \o Byte(128), Byte(195), Byte(255), "a" \o Byte(128) \o "b", Byte(237) \o Byte(160) \o Byte(128),
           "a" \o Byte(0), "a" \o Byte(1), "a" \o Byte(127), "a\rb", "a\nb", "0", "5", Rep("v", 200),
           Byte(194) \o Byte(160) \o "v", "v" \o Byte(194) \o Byte(160), " " \o Byte(227) \o Byte(128) \o Byte(128) \o "v ", "v" \o Byte(226) \o Byte(128) \o Byte(131)}
BadLines == {"NoColon", ": novalue", "", "Na me: v", "Name : v", "N\tm: v", " folded: v", "\tfolded", "N(m: v", "N" \o Byte(195) \o Byte(169) \o ": v", "N\rm: v",
             "Name", "N@: v", "N/: x", "\"N\": v", Byte(0) \o "N: v", "Host", "Host example.com", "Hos: x", "Hostt: x", "X-Host: x"}
Lens == {"0", "1", "2", "3", "5", "6", "7", "10", "007", "+3", "-1", "", "3 ", "0x3", "3,3", "1.0", "a", "99999999", "999999999999", "18446744073709551616", "4294967295", "4294967296", "2147483648", "4294967299"}
Bodies == {"", "a", "abcdef", CRLF, CRLF \o CRLF, "x\r\n\r\ny", "GET / HTTP/1.1\r\nHost: evil\r\n\r\n", Byte(0) \o Byte(255), Rep("0123456789", 30)}

Numbered(n) == [i \in 1..n |-> "H" \o ToString(i) \o ": " \o ToString(i)]

Lines_ == {[Base EXCEPT !.rl = m \o " " \o t \o " HTTP/1.1"] : m \in Methods, t \in {"/", "/a?b", "*", "h:80"}}
          \cup {[Base EXCEPT !.rl = m \o " " \o t \o " HTTP/1.1"] : m \in {"GET", "POST", "CONNECT"}, t \in Targets}
          \cup {[Base EXCEPT !.rl = "GET / " \o v] : v \in Versions}
          \cup {[Base EXCEPT !.rl = x] : x \in {"", "GET", "GET ", "GET /", "GET / ", "GET  / HTTP/1.1", "GET /  HTTP/1.1", " GET / HTTP/1.1", "GET\t/\tHTTP/1.1", "/ HTTP/1.1", "GET HTTP/1.1"}}
HostLines == {[Base EXCEPT !.hs = <<n \o ":" \o s \o h, "X: 1">>, !.rl = r] : n \in {"Host", "host", "HOST", "hOsT"}, s \in {"", " "}, h \in Hosts, r \in {"GET /p?q HTTP/1.1"}}
            \cup {[Base EXCEPT !.hs = <<"Host: " \o h>>, !.rl = r] : h \in Hosts, r \in {"GET http://abs.example/u HTTP/1.1", "CONNECT h:1 HTTP/1.1"}}
            \cup {[Base EXCEPT !.hs = hs] : hs \in {<<>>, <<"X: 1">>, <<"Hos: t">>, <<"X-Host: t">>, <<"X-Forwarded-Host: t.example">>, <<"Hostname: t">>, <<"Forwarded: host=t">>, <<"Origin: http://t">>, <<"Referer: http://t/">>, <<":authority: t">>, <<"Ho-st: t">>, <<"Host-: t">>}}
Dups == {[Base EXCEPT !.hs = <<"Host: h.example", a \o ": one", b \o ": two", c \o ": three">>] : a \in {"A", "a"}, b \in {"A", "a", "B"}, c \in {"A", "a", "B"}}
        \cup {[Base EXCEPT !.hs = <<a \o ": one.example", b \o ": two.example">>] : a \in {"Host", "host", "HOST"}, b \in {"Host", "host", "HOST"}}
        \cup {[Base EXCEPT !.hs = <<"Host: h", a \o ": 1", b \o ": 4", "X: y">>, !.body = "abcdef", !.rl = "POST / HTTP/1.1"] : a \in {"Content-Length", "content-length"}, b \in {"Content-Length", "content-length", "CONTENT-LENGTH"}}
NameValues == {[Base EXCEPT !.hs = <<"Host: h.example", n \o ":" \o v, "Z: last">>] : n \in Names, v \in Values}
BadHeaders == {[Base EXCEPT !.hs = <<"Host: h.example", "A: 1">> \o <<b>>] : b \in BadLines}
              \cup {[Base EXCEPT !.hs = <<b, "Host: h.example">>] : b \in BadLines}
              \cup {[Base EXCEPT !.hs = <<"Host: h.example", b, "C: 3">>] : b \in BadLines}
Counts == {[Base EXCEPT !.hs = Numbered(i) \o <<"Host: h.example">> \o Numbered(j)] : i \in {0, 1, 9, 18, 19, 20, 21}, j \in {0, 1, 9, 10}}
          \cup {[Base EXCEPT !.hs = <<"Host: h.example">> \o [i \in 1..n |-> "Same: " \o ToString(i)]] : n \in {18, 19, 20, 21, 40}}
Bodied == {[Base EXCEPT !.rl = "POST / HTTP/1.1", !.hs = <<"Host: h", "Content-Length: " \o l>>, !.body = b] : l \in Lens, b \in Bodies}
          \cup {[Base EXCEPT !.rl = m \o " / HTTP/1.1", !.body = b] : m \in {"GET", "POST", "HEAD", "CONNECT"}, b \in Bodies}
          \cup {[Base EXCEPT !.hs = <<"Host: h", n \o ": 3", "Content-Type: 5", "X-Content-Length: 1">>, !.body = "abcdef"] : n \in {"Content-Length", "content-length", "CoNtEnT-lEnGtH"}}
Long == {[Base EXCEPT !.hs = <<"Host: h", "A: " \o Rep("x", n), "Content-Length: 6">>, !.body = "abcdefgh"] : n \in {900, 950, 1000, 1100, 4000, 8100, 9900, 10050, 12000, 65400, 65530, 70000}}

ReqMsgs == Lines_ \cup HostLines \cup Dups \cup NameValues \cup BadHeaders \cup Counts \cup Bodied \cup Long

\* ---- responses -----------------------------------------------------------------------------------------
StatusLines == {"HTTP/1.1 " \o c \o r : c \in {"100", "101", "200", "204", "304", "404", "500", "599", "600", "999", "099", "20", "2000", "2x0", "", " 200"},
                                        r \in {"", " ", " OK", " Not found here", "  two", " tail ", " tab\tbed", " caf" \o Byte(195) \o Byte(169), " a:b!", " " \o Rep("r", 100)}}
               \cup {v \o " 200 OK" : v \in {"HTTP/1.0", "HTTP/2", "HTTP/1.2", "http/1.1", "HTP/1.1", "", "GET"}} \cup {"", "garbage", "GET / HTTP/1.1", "200 OK"}
ResMsgs == {[ResBase EXCEPT !.rl = r] : r \in StatusLines}
           \cup {[ResBase EXCEPT !.hs = <<"Content-Length: " \o l>>, !.body = b] : l \in Lens, b \in Bodies}
           \cup {[ResBase EXCEPT !.hs = <<n \o ":" \o v, "Z: last">>] : n \in Names, v \in Values}
           \cup {[ResBase EXCEPT !.hs = <<b, "A: 1">>] : b \in BadLines} \cup {[ResBase EXCEPT !.hs = <<"A: 1", b>>] : b \in BadLines}
           \cup {[ResBase EXCEPT !.hs = Numbered(n)] : n \in {0, 1, 19, 20, 21, 30}}
           \cup {[ResBase EXCEPT !.hs = <<"Content-Type: text/html", n \o ": 3", "X-Content-Length: 1">>] : n \in {"Content-Length", "content-length", "CONTENT-LENGTH"}}
           \cup {[ResBase EXCEPT !.hs = <<"Content-Type: 2">>], [ResBase EXCEPT !.hs = <<"content-type: 1", "Content-Length: 4">>], [ResBase EXCEPT !.hs = <<"Content-Length: 4", "content-type: 1">>]}
           \cup {[ResBase EXCEPT !.hs = <<a \o ": 1", b \o ": 4", "X: y">>] : a \in {"Content-Length", "content-length"}, b \in {"Content-Length", "content-length"}}
           \cup {[ResBase EXCEPT !.hs = <<"A: " \o Rep("x", n), "Content-Length: 6">>, !.body = "abcdefgh"] : n \in {900, 950, 1000, 1100, 2100}}

\* ---- neighbourhood: one character inserted, replaced or removed; every truncation ----------------------------
Seeds == {"POST /a?b HTTP/1.1\r\nHost: h.io\r\nA: b\r\nContent-Length: 2\r\n\r\nxyz"}
ResSeeds == {"HTTP/1.1 200 OK\r\nA: b\r\nContent-Length: 2\r\n\r\nxyz"}
Poison == {CR, LF, " ", ":", Byte(0), Byte(200), "a", TAB, CRLF, "/"}
Mutants(w) == {UpTo(w, i) \o c \o From(w, i + 1) : i \in 0..Len(w), c \in Poison}
              \cup {UpTo(w, i - 1) \o c \o From(w, i + 1) : i \in 1..Len(w), c \in Poison}
              \cup {UpTo(w, i - 1) \o From(w, i + 1) : i \in 1..Len(w)}
Cuts(w) == {UpTo(w, i) : i \in 0..Len(w)}

ReqWires == {Wire(m) : m \in ReqMsgs} \cup {WithLf(m) : m \in Dups} \cup UNION {Mutants(w) \cup Cuts(w) : w \in Seeds}
            \cup {CRLF \o Wire(Base), LF \o Wire(Base), CRLF \o CRLF \o Wire(Base), CRLF \o CRLF, CRLF, LF, CR, "\r\n\r", "a\r\n\r\n", "\n\n", "\r\r\n\r\n"}
            \cup {"GET / HTTP/1.1\nHost: h\n\nbody\r\n\r\nmore", "GET / HTTP/1.1\r\nHost: h\r\n\nbody\r\n\r\nmore", "GET / HTTP/1.1\r\nHost: h\n\r\nbody\r\n\r\nmore"}
ResWires == {Wire(m) : m \in ResMsgs} \cup UNION {Mutants(w) \cup Cuts(w) : w \in ResSeeds}
            \cup {CRLF \o Wire(ResBase), CRLF \o CRLF \o Wire(ResBase), CRLF \o CRLF, CRLF}
            \cup {"HTTP/1.1 200 OK\nA: b\n\nbody\r\n\r\nmore"}

Pick(s) == IF N = 0 \/ N >= Cardinality(s) THEN s ELSE RandomSubset(N, s)
Kind == IOEnv.KIND
Cases == IF Kind = "response" THEN {[kind |-> "response", wire |-> w, class |-> Response(w).class] : w \in Pick(ResWires)}
         ELSE {[kind |-> "request", wire |-> w, class |-> Request(w).class] : w \in Pick(ReqWires)}
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
