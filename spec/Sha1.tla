-------------------------------- MODULE Sha1 --------------------------------
(* SHA-1 (FIPS 180-4) and Base64 (RFC 4648), as RFC 6455 needs them for Sec-WebSocket-Accept.  TLC's    *)
(* integers are 32 bits wide and signed, so a 32-bit word is a pair <<high, low>> of 16-bit halves.       *)
EXTENDS Text, Bitwise, SequencesExt

M16 == 65536
Word(n1, n2) == <<n1, n2>>
AddW(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div M16) % M16, lo % M16>>
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b) == <<a[1] | b[1], a[2] | b[2]>>
NotW(a) == <<65535 - a[1], 65535 - a[2]>>
\* rotation to the left by k bits, 1 <= k <= 15
Rot(a, k) == LET p == 2^k
                 q == 2^(16 - k)
             IN <<(a[1] % q) * p + a[2] \div q, (a[2] % q) * p + a[1] \div q>>
Rot30(a) == LET b == Rot(a, 14) IN <<b[2], b[1]>>

Bytes(s) == [i \in 1..Len(s) |-> ByteOf[Ch(s, i)]]
\* the padded message
Padded(b) == LET n == Len(b)
                 z == (55 - n) % 64
                 bits == 8 * n
             IN b \o <<128>> \o [i \in 1..z |-> 0]
                  \o <<0, 0, 0, 0, (bits \div 16777216) % 256, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
WordAt(b, i) == <<256 * b[i] + b[i + 1], 256 * b[i + 2] + b[i + 3]>>

Schedule(b, o) ==
  FoldLeft(LAMBDA w, t : Append(w, Rot(XorW(XorW(w[t - 3], w[t - 8]), XorW(w[t - 14], w[t - 16])), 1)),
           [i \in 1..16 |-> WordAt(b, o + 4 * i - 3)], [i \in 1..64 |-> i + 16])

K(t) == IF t <= 20 THEN <<23170, 31129>> ELSE IF t <= 40 THEN <<28377, 60321>> ELSE IF t <= 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
F(t, b, c, d) == IF t <= 20 THEN OrW(AndW(b, c), AndW(NotW(b), d))
                 ELSE IF t <= 40 \/ t > 60 THEN XorW(XorW(b, c), d)
                 ELSE OrW(OrW(AndW(b, c), AndW(b, d)), AndW(c, d))
Round(x, wt, t) == <<AddW(AddW(AddW(Rot(x[1], 5), F(t, x[2], x[3], x[4])), AddW(x[5], K(t))), wt), x[1], Rot30(x[2]), x[3], x[4]>>
Block(h, b, o) == LET w == Schedule(b, o)
                      x == FoldLeft(LAMBDA y, t : Round(y, w[t], t), h, [i \in 1..80 |-> i])
                  IN [i \in 1..5 |-> AddW(h[i], x[i])]
H0 == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
Sha1Bytes(s) == LET b == Padded(Bytes(s))
                    h == FoldLeft(LAMBDA y, k : Block(y, b, 64 * (k - 1)), H0, [i \in 1..(Len(b) \div 64) |-> i])
                IN [i \in 1..20 |-> LET w == h[(i + 3) \div 4]
                                        j == (i - 1) % 4
                                    IN CASE j = 0 -> w[1] \div 256 [] j = 1 -> w[1] % 256 [] j = 2 -> w[2] \div 256 [] j = 3 -> w[2] % 256]

B64 == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
D64(n) == Ch(B64, n + 1)
\* Base64 of 20 bytes: six groups of three bytes and one of two
Base64Of20(b) ==
  LET g(i) == LET x == b[3 * i - 2]
                  y == b[3 * i - 1]
                  z == b[3 * i]
              IN D64(x \div 4) \o D64((x % 4) * 16 + y \div 16) \o D64((y % 16) * 4 + z \div 64) \o D64(z % 64)
  IN g(1) \o g(2) \o g(3) \o g(4) \o g(5) \o g(6)
     \o D64(b[19] \div 4) \o D64((b[19] % 4) * 16 + b[20] \div 16) \o D64((b[20] % 16) * 4) \o "="

Hex == "0123456789abcdef"
RECURSIVE HexFrom(_, _)
HexFrom(b, i) == IF i > Len(b) THEN "" ELSE Ch(Hex, (b[i] \div 16) + 1) \o Ch(Hex, (b[i] % 16) + 1) \o HexFrom(b, i + 1)
=============================================================================
