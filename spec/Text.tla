------------------------------- MODULE Text -------------------------------
(* Text and bytes.  A byte string is a TLA+ string in which character 16rHH stands for byte 16rHH   *)
(* (latin-1), so that a wire image is a value TLC can slice, compare, read and print.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
UpTo(s, i) == SubSeq(s, 1, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ UpTo(s, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ From(s, Len(s) - Len(p) + 1) = p

CR == "\r"
LF == "\n"
CRLF == "\r\n"
TAB == "\t"

UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER == "abcdefghijklmnopqrstuvwxyz"
DIGITS == "0123456789"
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
UpperSet == Chars(UPPER)
LowerSet == Chars(LOWER)
DigitSet == Chars(DIGITS)
AlphaSet == UpperSet \cup LowerSet
AlnumSet == AlphaSet \cup DigitSet
HexSet == DigitSet \cup Chars("abcdefABCDEF")
\* RFC 9110 token characters
TokenSet == AlnumSet \cup Chars("!#$%&'*+-.^_`|~")
\* printable ASCII, 16r21..16r7e
VCharSet == AlnumSet \cup Chars("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
BlankSet == {" ", TAB}

All(s, set) == \A i \in 1..Len(s) : Ch(s, i) \in set
Some(s, set) == \E i \in 1..Len(s) : Ch(s, i) \in set

LowerMap == [c \in UpperSet |-> Ch(LOWER, CHOOSE i \in 1..26 : Ch(UPPER, i) = c)]
LowerCh(c) == IF c \in UpperSet THEN LowerMap[c] ELSE c
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowerCh(Ch(s, i)) \o LowerFrom(s, i + 1)
Lower(s) == IF Some(s, UpperSet) THEN LowerFrom(s, 1) ELSE s
EqNoCase(a, b) == Lower(a) = Lower(b)

\* The first position i >= k at which p occurs in s, 0 if there is none.
At(s, p, i) == SubSeq(s, i, i + Len(p) - 1) = p
Find(s, p, k) == LET is == k..(Len(s) - Len(p) + 1)
                 IN IF \E i \in is : At(s, p, i)
                    THEN CHOOSE i \in is : At(s, p, i) /\ \A j \in k..(i - 1) : ~At(s, p, j)
                    ELSE 0
Has(s, p) == Find(s, p, 1) # 0

\* The pieces of s between the occurrences of p (one piece more than there are occurrences).
RECURSIVE Split(_, _)
Split(s, p) == LET i == Find(s, p, 1)
               IN IF i = 0 THEN <<s>> ELSE <<UpTo(s, i - 1)>> \o Split(From(s, i + Len(p)), p)

RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # "" /\ Ch(s, 1) \in BlankSet THEN TrimLeft(From(s, 2)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # "" /\ Ch(s, Len(s)) \in BlankSet THEN TrimRight(UpTo(s, Len(s) - 1)) ELSE s
Trim(s) == TrimLeft(TrimRight(s))

DigitMap == [c \in DigitSet |-> (CHOOSE i \in 1..10 : Ch(DIGITS, i) = c) - 1]
RECURSIVE DropZeros(_)
DropZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN DropZeros(From(s, 2)) ELSE s
RECURSIVE DecOf(_, _)
DecOf(s, acc) == IF s = "" THEN acc ELSE DecOf(From(s, 2), 10 * acc + DigitMap[Ch(s, 1)])
\* A decimal numeral; TLC's integers are 32 bits wide, so numerals of ten digits and more are HUGE,
\* which stands for "more than any stream in these models".
HUGE == 2000000000
IsNumeral(s) == s # "" /\ All(s, DigitSet)
Decimal(s) == LET d == DropZeros(s) IN IF Len(d) > 9 THEN HUGE ELSE DecOf(d, 0)

Min2(a, b) == IF a < b THEN a ELSE b

\* bytes.json lists the 256 one-character strings, which a TLA+ source file cannot spell out.
ByteChars == JsonDeserialize("bytes.json")
Byte(n) == ByteChars[n + 1]
ByteOf == [c \in {ByteChars[i] : i \in 1..256} |-> (CHOOSE i \in 1..256 : ByteChars[i] = c) - 1]
AsciiSet == {ByteChars[i] : i \in 1..128}
ControlSet == {ByteChars[i] : i \in 1..32} \cup {ByteChars[128]}

\* RFC 3629: s is a sequence of well-formed UTF-8 encodings: every byte starts one or continues one.
LeadLen(x) == CASE x < 128 -> 1 [] x \in 194..223 -> 2 [] x \in 224..239 -> 3 [] x \in 240..244 -> 4 [] OTHER -> 0
Second(x) == CASE x = 224 -> 160..191 [] x = 237 -> 128..159 [] x = 240 -> 144..191 [] x = 244 -> 128..143 [] OTHER -> 128..191
Utf8At(s, i) ==
  LET b(k) == ByteOf[Ch(s, k)]
      x == b(i)
      n == LeadLen(x)
  IN IF x \in 128..191
     THEN \E k \in 1..Min2(3, i - 1) : LeadLen(b(i - k)) > k /\ \A j \in (i - k + 1)..(i - 1) : b(j) \in 128..191
     ELSE /\ n > 0 /\ i + n - 1 <= Len(s)
          /\ n > 1 => b(i + 1) \in Second(x)
          /\ \A j \in (i + 1)..(i + n - 1) : b(j) \in 128..191
IsUtf8(s) == \A i \in 1..Len(s) : Ch(s, i) \in AsciiSet \/ Utf8At(s, i)
=============================================================================
