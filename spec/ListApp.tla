------------------------------ MODULE ListApp ------------------------------
(* A list which many clients add to and read from, as they see it: every call takes effect at once, at     *)
(* some moment between being made and being answered.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

\* calls: [op |-> "add", x], [op |-> "read", n] or [op |-> "bad"] (anything the list has no answer to)
LastOf(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
AnswerTo(c, s) == CASE c.op = "add" -> <<"added">> [] c.op = "read" -> <<"items", LastOf(s, c.n)>> [] OTHER -> <<"bad">>
After(c, s) == IF c.op = "add" THEN Append(s, c.x) ELSE s

CONSTANTS Clients, Calls

VARIABLES items,
          calling   \* for each client: <<>>, <<its call>> or <<its call, the answer to it>>
vars == <<items, calling>>
Init == items = <<>> /\ calling = [c \in Clients |-> <<>>]
Call(c, x) == calling[c] = <<>> /\ calling' = [calling EXCEPT ![c] = <<x>>] /\ UNCHANGED items
Effect(c) == /\ Len(calling[c]) = 1
             /\ items' = After(calling[c][1], items)
             /\ calling' = [calling EXCEPT ![c] = <<@[1], AnswerTo(@[1], items)>>]
Answer(c) == Len(calling[c]) = 2 /\ calling' = [calling EXCEPT ![c] = <<>>] /\ UNCHANGED items
\* the client does not wait for the answer any more: the call takes effect or does not
Vanish(c) == calling[c] # <<>> /\ calling' = [calling EXCEPT ![c] = <<>>] /\ UNCHANGED items
VanishAfter(c) == Len(calling[c]) = 1 /\ items' = After(calling[c][1], items) /\ calling' = [calling EXCEPT ![c] = <<>>]
Next == \E c \in Clients : (\E x \in Calls : Call(c, x)) \/ Effect(c) \/ Answer(c) \/ Vanish(c) \/ VanishAfter(c)
Spec == Init /\ [][Next]_vars
OnlyGrows == [][SubSeq(items', 1, Len(items)) = items /\ Len(items') <= Len(items) + 1]_vars
=============================================================================
