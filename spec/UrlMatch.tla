------------------------------ MODULE UrlMatch ------------------------------
(* Which URL paths a pattern describes.  A pattern is a sequence of <<"static", text>>, <<"any", "">>   *)
(* and <<"int", "">>; a path is that of an absolute URL and starts with "/".                             *)
EXTENDS Text

Segments(path) == Split(From(path, 2), "/")

\* an optionally signed decimal integer / one that has 32 bits
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN From(s, 2) ELSE s
IsInteger(s) == IsNumeral(Unsigned(s))
Is32(s) == LET d == DropZeros(Unsigned(s))
               neg == Ch(s, 1) = "-"
               last == DigitMap[Ch(d, Len(d))]
               high == Decimal(UpTo(d, Len(d) - 1))
           IN \/ Len(d) < 10
              \/ Len(d) = 10 /\ (high < 214748364 \/ (high = 214748364 /\ last <= (IF neg THEN 8 ELSE 7)))
\* "yes", "no" or "free" (an integer of more than 32 bits)
Fit(seg, s) == CASE seg[1] = "static" -> IF s = seg[2] THEN "yes" ELSE "no"
                 [] seg[1] = "any" -> "yes"
                 [] seg[1] = "int" -> IF ~IsInteger(s) THEN "no" ELSE IF Is32(s) THEN "yes" ELSE "free"
Matches(pattern, path) ==
  LET ss == Segments(path) IN
  IF Len(ss) # Len(pattern) THEN "no"
  ELSE LET fs == {Fit(pattern[i], ss[i]) : i \in 1..Len(ss)}
       IN IF "no" \in fs THEN "no" ELSE IF "free" \in fs THEN "free" ELSE "yes"
=============================================================================
