----------------------------- MODULE Trace_List -----------------------------
(* Validates what the clients of a running list saw: is there an order of effects, each of them between     *)
(* its call and its answer, which explains all answers?  The last event of a session is a read of            *)
(* everything, and `final` is what it returned, so the list is at all times the first k items of `final`.    *)
(* `poss` has, for each way to explain what was seen so far, [k, adds called and not in effect yet, adds in  *)
(* effect and not answered yet, for each read the k when it was called]; effects are as late as possible.    *)
(* `known`: the findings listed in known-findings.json, which the list may show.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
L == INSTANCE ListApp WITH items <- <<>>, calling <- <<>>, Clients <- {}, Calls <- {}
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, poss, calls
vars == <<t, l, poss, calls>>
S == Sessions[t]
E == S.runs[l]
F == S.final

TInit == /\ t \in 1..Len(Sessions) /\ l = 1 /\ calls = <<>>
         /\ poss = {[k |-> 0, open |-> {}, made |-> {}, low |-> {}]}

\* one more item: which of the adds called may it be from?
Grow(p) == IF p.k >= Len(F) THEN {}
           ELSE {[p EXCEPT !.k = @ + 1, !.open = @ \ {a}, !.made = @ \cup {a}] : a \in {a \in p.open : calls[a].x = F[p.k + 1]}}
\* as few more items as make `done` true
RECURSIVE Until(_, _, _)
Until(id, k, ps) ==
  LET ready == {p \in ps : IF id # 0 THEN id \in p.made ELSE p.k >= k}
      more == UNION {Grow(p) : p \in ps \ ready}
  IN IF ps = {} THEN {} ELSE ready \cup Until(id, k, more)

Call == /\ E.e = "call" /\ E.id = Len(calls) + 1
        /\ calls' = Append(calls, E.call)
        /\ poss' = CASE E.call.op = "add" -> {[p EXCEPT !.open = @ \cup {E.id}] : p \in poss}
                     [] E.call.op = "read" -> {[p EXCEPT !.low = @ \cup {<<E.id, p.k>>}] : p \in poss}
                     [] OTHER -> poss
\* the first state of the list since `low` which explains what was read
Knows(f) == \E i \in DOMAIN S.known : S.known[i] = f
ReadAt(low, n, items) == LET ks == {k \in low..Len(F) : (Len(items) = (IF n < k THEN n ELSE k)) /\ L!LastOf(SubSeq(F, 1, k), n) = items}
                                   \* known: everything is returned when there is more than was asked for
                                   \cup {k \in low..Len(F) : Knows("C25-read-all") /\ n < k /\ Len(items) = k /\ SubSeq(F, 1, k) = items}
                         IN IF ks = {} THEN -1 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
\* the answer to each of the calls
Good(c, a) == CASE c.op = "add" -> a.status = 200 /\ a.page = "added"
                [] c.op = "read" -> a.status = 200 /\ a.page = "items"
                [] c.op = "form" -> a.status = 200 /\ a.page = "form"
                [] c.op = "malformed" -> a.status = 400
                   \* known: a negative number is not answered at all
                [] c.op = "negative" -> a.status = 400 \/ (Knows("C25-negative") /\ a.status = 0 /\ a.page = "none")
                [] c.op = "unknown" -> a.status = 404
Answer == /\ E.e = "answer" /\ (Good(calls[E.id], E.answer)) = TRUE
          /\ UNCHANGED calls
          /\ poss' = CASE calls[E.id].op = "add" -> {[p EXCEPT !.made = @ \ {E.id}] : p \in Until(E.id, 0, poss)}
                       [] calls[E.id].op = "read" ->
                            UNION {LET low == CHOOSE x \in p.low : x[1] = E.id
                                       k == ReadAt(low[2], calls[E.id].n, E.answer.items)
                                   IN IF k = -1 THEN {} ELSE {[q EXCEPT !.low = @ \ {low}] : q \in Until(0, k, {p})} : p \in poss}
                       [] OTHER -> poss
          /\ (poss' # {}) = TRUE
\* the client has gone: what it added may come into effect at any time, or never
Vanish == /\ E.e = "vanish" /\ UNCHANGED calls
          /\ poss' = {[p EXCEPT !.low = {x \in @ : x[1] # E.id}, !.made = @ \ {E.id}] : p \in poss}

Step == l <= Len(S.runs) /\ (Call \/ Answer \/ Vanish) /\ l' = l + 1 /\ UNCHANGED t
TDone == l > Len(S.runs) /\ UNCHANGED vars
TSpec == TInit /\ [][Step \/ TDone]_vars
\* at the end everything is explained
TSafe == l > Len(S.runs) => \E p \in poss : p.k = Len(F)
=============================================================================
