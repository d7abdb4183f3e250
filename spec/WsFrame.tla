------------------------------ MODULE WsFrame ------------------------------
(* RFC 6455 frames over byte sequences (bytes are integers 0..255).                                  *)
EXTENDS Integers, Sequences, Bitwise, TLC

OpNames == [n \in 0..15 |-> CASE n = 0 -> "cont" [] n = 1 -> "text" [] n = 2 -> "bin" [] n = 8 -> "close"
                              [] n = 9 -> "ping" [] n = 10 -> "pong" [] OTHER -> "reserved"]
OpCode == [cont |-> 0, text |-> 1, bin |-> 2, close |-> 8, ping |-> 9, pong |-> 10]
Control == {"close", "ping", "pong"}
B(b) == IF b THEN 1 ELSE 0

\* TLC's integers have 32 bits: declared lengths from 2^30 are HUGE, more than any stream here holds.
HugeLength == 1073741824
Num2(w, p) == w[p] * 256 + w[p+1]
Num8(w, p) == IF \E i \in 0..3 : w[p+i] # 0 THEN HugeLength
              ELSE IF w[p+4] >= 64 THEN HugeLength
              ELSE ((w[p+4] * 256 + w[p+5]) * 256 + w[p+6]) * 256 + w[p+7]

Unmask(w, p, n, k) == [i \in 1..n |-> w[p + i - 1] ^^ w[k + ((i - 1) % 4)]]

(* The frame that starts at position p of w, of which the first `sent` bytes have arrived.           *)
(*   st = "ok"    complete: fin, rsv (set of the reserved bits 1..3), op, data; it ends before `next` *)
(*   st = "bad"   complete, but its payload is not masked                                             *)
(*   st = "cut"   not all of it has arrived                                                           *)
\* early: the bytes which have arrived already show that the frame breaks a rule (for frames or, read
\* with ~masked, messages), so that an endpoint may report an error before the rest arrives.
Frame(w, sent, p) ==
  LET have == sent - p + 1
      cut(e) == [st |-> "cut", early |-> e]
  IN IF have <= 0 THEN cut(FALSE)
  ELSE
  LET fin == w[p] >= 128
      rsv == {i \in 1..3 : (w[p] \div (2^(7-i))) % 2 = 1}
      op == OpNames[w[p] % 16]
      suspect == rsv # {} \/ op = "reserved" \/ (op \in Control /\ ~fin)
  IN IF have = 1 THEN cut(suspect)
  ELSE
  LET masked == w[p+1] >= 128
      l7 == w[p+1] % 128
      ext == IF l7 = 126 THEN 2 ELSE IF l7 = 127 THEN 8 ELSE 0
      head == 2 + ext + (IF masked THEN 4 ELSE 0)
      hasLen == have >= 2 + ext
      early == suspect \/ (op \in Control /\ ext # 0) \/ ~masked
  IN IF ~hasLen THEN cut(early)
  ELSE
  LET len == IF ext = 0 THEN l7 ELSE IF ext = 2 THEN Num2(w, p+2) ELSE Num8(w, p+2)
  IN IF have < head \/ have - head < len THEN cut(early)
     ELSE IF len > 0 /\ ~masked THEN [st |-> "bad"]
     ELSE [st |-> "ok", fin |-> fin, rsv |-> rsv, op |-> op, next |-> p + head + len,
           data |-> IF len = 0 THEN <<>> ELSE Unmask(w, p + head, len, p + head - 4)]

\* ---- the frames the server sends: unmasked, final, length in the shortest form --------------------
Length(n) == IF n < 126 THEN <<n>>
             ELSE IF n <= 65535 THEN <<126, n \div 256, n % 256>>
             ELSE <<127, 0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
ServerFrame(op, data) == <<128 + OpCode[op]>> \o Length(Len(data)) \o data

\* ---- RFC 3629 ---------------------------------------------------------------------------------------
LeadLen(x) == CASE x < 128 -> 1 [] x \in 194..223 -> 2 [] x \in 224..239 -> 3 [] x \in 240..244 -> 4 [] OTHER -> 0
Second(x) == CASE x = 224 -> 160..191 [] x = 237 -> 128..159 [] x = 240 -> 144..191 [] x = 244 -> 128..143 [] OTHER -> 128..191
Utf8At(s, i) ==
  LET x == s[i]
      n == LeadLen(x)
  IN IF x \in 128..191
     THEN \E k \in 1..(IF i - 1 < 3 THEN i - 1 ELSE 3) : LeadLen(s[i - k]) > k /\ \A j \in (i - k + 1)..(i - 1) : s[j] \in 128..191
     ELSE /\ n > 0 /\ i + n - 1 <= Len(s)
          /\ n > 1 => s[i + 1] \in Second(x)
          /\ \A j \in (i + 1)..(i + n - 1) : s[j] \in 128..191
ValidUtf8(s) == \A i \in 1..Len(s) : s[i] < 128 \/ Utf8At(s, i)
=============================================================================
