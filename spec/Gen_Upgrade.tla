----------------------------- MODULE Gen_Upgrade -----------------------------
(* Requests around the conditions of an upgrade, with the verdict of Upgrade.                             *)
EXTENDS Upgrade, IOUtils
No == <<>>
Ups == {No} \cup {<<n \o ": " \o v>> : n \in {"Upgrade", "upgrade", "UPGRADE", "uPgRaDe"}, v \in {"websocket", "WebSocket", "WEBSOCKET"}}
       \cup {<<"Upgrade: " \o v>> : v \in {"", "websockets", "web socket", "h2c", "websocket, h2c", "h2c,websocket", "\"websocket\"", "websocket/13"}}
       \cup {<<"X-Upgrade: websocket">>, <<"Upgrade:websocket  ">>, <<"Upgrade: h2c", "Upgrade: websocket">>, <<"Upgrade: websocket", "Upgrade: h2c">>, <<"Upgrade: websocket", "upgrade: h2c">>}
Conns_ == {No} \cup {<<n \o ": " \o v>> : n \in {"Connection", "connection", "CONNECTION"}, v \in {"Upgrade", "upgrade", "UPGRADE", "keep-alive, Upgrade", "Upgrade, keep-alive", "a,uPGRADE ,b", "keep-alive,upgrade"}}
        \cup {<<"Connection: " \o v>> : v \in {"", "keep-alive", "close", "upgraded", "xupgrade", "Upgrade keep-alive", "keep-alive; upgrade", "no-upgrade", "upgrade\t,x", ",upgrade", ", ,"}}
        \cup {<<"X-Connection: Upgrade">>, <<"Connection: close", "Connection: upgrade">>, <<"Connection: upgrade", "Connection: close">>, <<"Connection: upgrade", "connection: Upgrade">>}
Keys_ == {No} \cup {<<n \o ": " \o v>> : n \in {"Sec-WebSocket-Key", "sec-websocket-key", "SEC-WEBSOCKET-KEY", "Sec-Websocket-Key"}, v \in {"dGhlIHNhbXBsZSBub25jZQ=="}}
         \cup {<<"Sec-WebSocket-Key: " \o v>> : v \in {"", "x", "AAAAAAAAAAAAAAAAAAAAAA==", "  dGhlIHNhbXBsZSBub25jZQ==  ", "dghlihnhbxbszsbub25jzq==", "a b", "////////////////////////", "+", 
              "0123456789012345678", "01234567890123456789012345678", "0123456789012345678901234567", "a much longer key than anybody would ever use in an upgrade request, and then some more of it, to be sure"}}
         \cup {<<"Sec-WebSocket-Accept: dGhlIHNhbXBsZSBub25jZQ==">>, <<"Sec-WebSocket-Key: a", "Sec-WebSocket-Key: b">>, <<"Key: x">>}
Methods == {"GET", "POST", "HEAD"}

U0 == <<"Upgrade: websocket">>
C0 == <<"Connection: Upgrade">>
K0 == <<"Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==">>
Lists == {u \o C0 \o K0 : u \in Ups} \cup {U0 \o c \o K0 : c \in Conns_} \cup {U0 \o C0 \o k : k \in Keys_}
         \cup {k \o u \o c : u \in Ups, c \in Conns_, k \in {K0}} \cup {c \o k \o U0 : c \in {C0, No}, k \in Keys_}
         \cup {No, U0, C0, K0}
RECURSIVE Join(_, _)
Join(hs, i) == IF i > Len(hs) THEN "" ELSE hs[i] \o CRLF \o Join(hs, i + 1)
Wire(m, hs) == m \o " /chat HTTP/1.1\r\nHost: h\r\n" \o Join(hs, 1)
Cases == {[head |-> Wire("GET", hs), want |-> Wanted(Request(Wire("GET", hs) \o CRLF).headers)] : hs \in Lists}
         \cup {[head |-> Wire(m, U0 \o C0 \o K0), want |-> "yes"] : m \in Methods}
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
