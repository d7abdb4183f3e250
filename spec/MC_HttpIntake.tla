------------------------------ MODULE MC_HttpIntake ------------------------------
EXTENDS HttpIntake, FiniteSetsExt
\* Every byte string of length <= MaxLen over {a, CR, LF}; the ones with a complete head can be
\* followed by a body.
Alphabet == {"a", CR, LF}
RECURSIVE StringsOf(_)
StringsOf(n) == IF n = 0 THEN {""} ELSE LET p == StringsOf(n - 1) IN p \cup {s \o c : s \in {x \in p : Len(x) = n - 1}, c \in Alphabet}
CONSTANT MaxLen, BodyLen
MCWires == StringsOf(MaxLen) \cup {h \o b : h \in {"a\r\n\r\n", "a\na\r\n\r\n", "\r\n\r\r\n\r\n"}, b \in StringsOf(BodyLen)}
MCEnds == {"eof", "reset", "stall"}
MCLengths == {-1, 0, 1, 3}
=============================================================================
