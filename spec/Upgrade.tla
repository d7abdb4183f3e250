------------------------------ MODULE Upgrade ------------------------------
(* When a request asks for a WebSocket (RFC 6455, 4.2.1) and how it is answered.                         *)
(* headers: a set of <<name, value>>, one per exact name, as HttpMessage gives them.                       *)
EXTENDS HttpMessage, Sha1

Called(hs, n) == {p \in hs : Lower(p[1]) = n}
Listed(v) == {Lower(Trim(x)) : x \in ToSet(Split(v, ","))}
\* "yes", "no", or "free" where several spellings of a header's name carry different values, the key is
\* empty, or Upgrade lists several protocols: then the statement does not say
All1(hs, n, P(_)) == LET ps == Called(hs, n)
                         oks == {P(p[2]) : p \in ps}
                     IN IF ps = {} THEN "no" ELSE IF Cardinality(oks) = 1 THEN CHOOSE x \in oks : TRUE ELSE "free"
UpgradeOk(v) == IF Lower(v) = "websocket" THEN "yes" ELSE IF "websocket" \in Listed(v) THEN "free" ELSE "no"
ConnectionOk(v) == IF "upgrade" \in Listed(v) THEN "yes" ELSE "no"
KeyOk(v) == IF v = "" THEN "free" ELSE "yes"
Wanted(hs) == LET xs == {All1(hs, "upgrade", UpgradeOk), All1(hs, "connection", ConnectionOk), All1(hs, "sec-websocket-key", KeyOk)}
              IN IF "no" \in xs THEN "no" ELSE IF "free" \in xs THEN "free" ELSE "yes"

GUID == "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
Accept(key) == Base64Of20(Sha1Bytes(key \o GUID))
Keys(hs) == {p[2] : p \in Called(hs, "sec-websocket-key")}

\* rx, everything the client received, is one response with this status
Answer(rx, status) == LET r == Response(rx) IN r.class = "ok" /\ r.status = status
Is400(rx) == Answer(rx, 400) /\ ~Has(From(rx, 2), "HTTP/1.")
Is101(rx, hs) == /\ Answer(rx, 101)
                 /\ LET r == Response(rx) IN
                    /\ \E k \in Keys(hs) : Called(r.headers, "sec-websocket-accept") = {<<"Sec-WebSocket-Accept", Accept(k)>>}
                                           \/ {p[2] : p \in Called(r.headers, "sec-websocket-accept")} = {Accept(k)}
                    /\ {Lower(p[2]) : p \in Called(r.headers, "upgrade")} = {"websocket"}
                    /\ \E p \in Called(r.headers, "connection") : "upgrade" \in Listed(p[2])
                    /\ Called(r.headers, "content-length") = {}
                    /\ Called(r.headers, "sec-websocket-protocol") = {} /\ Called(r.headers, "sec-websocket-extensions") = {}

ASSUME HexFrom(Sha1Bytes("abc"), 1) = "a9993e364706816aba3e25717850c26c9cd0d89d"
ASSUME HexFrom(Sha1Bytes(""), 1) = "da39a3ee5e6b4b0d3255bfef95601890afd80709"
ASSUME HexFrom(Sha1Bytes("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"), 1) = "84983e441c3bd26ebaae4aa1f95129e5e54670f1"
ASSUME Accept("dGhlIHNhbXBsZSBub25jZQ==") = "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="
=============================================================================
