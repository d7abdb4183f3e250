--------------------------- MODULE Gen_Builders ---------------------------
(* Every builder history of a bounded length; the design-level invariants say what must come out of     *)
(* one without the fold of Builders.  Each history is printed for replay into the code.                 *)
EXTENDS Builders, IOUtils
Long == IOEnv.LONG = "yes"
Data == {[data |-> "", len |-> 0], [data |-> "hello", len |-> 5], [data |-> "hello", len |-> 2], [data |-> "xyz", len |-> 9], [data |-> "raw", len |-> -1]}
Common == {[c |-> "header", k |-> k, v |-> v] : k \in {"A", "a"}, v \in {"1", "2"}}
          \cup {[c |-> "headers", h |-> <<<<"A", "3">>, <<"Content-Type", "t">>, <<"A", "4">>>>], [c |-> "headers", h |-> <<>>]}
          \cup {[c |-> "body", b |-> b] : b \in {[data |-> "hello", len |-> 5], [data |-> "xyz", len |-> -1]}}
Calls(kind) == Common \cup IF kind = "request" THEN {[c |-> "method", m |-> m] : m \in {"GET", "other:PUT"}}
                           ELSE {[c |-> "status", code |-> s, reason |-> r] : s \in {404}, r \in {"Gone away", ""}} \cup {[c |-> "status", code |-> 200, reason |-> "OK"]}
Posts == {[c |-> "take"]} \cup {[c |-> "replace", b |-> b] : b \in Data}
MaxCalls == IF Long THEN 4 ELSE 3
MaxPosts == 2

VARIABLES kind, calls, posts, m
vars == <<kind, calls, posts, m>>
Init == kind \in {"request", "response"} /\ calls = <<>> /\ posts = <<>> /\ m = NewMessage
DoCall == /\ posts = <<>> /\ Len(calls) < MaxCalls
          /\ \E c \in Calls(kind) : calls' = Append(calls, c) /\ m' = Call(m, c)
          /\ UNCHANGED <<kind, posts>>
DoPost == /\ Len(posts) < MaxPosts /\ Len(calls) < MaxCalls
          /\ \E p \in Posts : posts' = Append(posts, p) /\ m' = IF p.c = "take" THEN Take(m, OCTETS) ELSE Replace(m, p.b, OCTETS)
          /\ UNCHANGED <<kind, calls>>
Spec == Init /\ [][DoCall \/ DoPost]_vars

\* ---- declarative reading ---------------------------------------------------------------------------
\* all the pairs set, in order
RECURSIVE PairsOf(_, _)
PairsOf(cs, i) == IF i > Len(cs) THEN <<>>
                  ELSE (CASE cs[i].c = "header" -> <<<<cs[i].k, cs[i].v>>>> [] cs[i].c = "headers" -> cs[i].h [] OTHER -> <<>>) \o PairsOf(cs, i + 1)
All_ == PairsOf(calls, 1) \o [i \in 1..Len(posts) |-> <<"Content-Type", OCTETS>>]
LastOf(P(_), default, F(_)) ==
  LET is == {i \in 1..Len(calls) : P(calls[i])}
  IN IF is = {} THEN default ELSE F(calls[CHOOSE i \in is : \A j \in is : j <= i])
HeadersAreTheLastOnes == m.headers = {All_[i] : i \in {i \in 1..Len(All_) : \A j \in (i + 1)..Len(All_) : All_[j][1] # All_[i][1]}}
Singles == /\ m.status = LastOf(LAMBDA c : c.c = "status", 200, LAMBDA c : c.code)
           /\ m.reason = LastOf(LAMBDA c : c.c = "status", "", LAMBDA c : c.reason)
           /\ m.method = LastOf(LAMBDA c : c.c = "method", "", LAMBDA c : c.m)
           /\ m.body = IF posts # <<>> THEN (LET p == posts[Len(posts)] IN IF p.c = "take" THEN "" ELSE BodyBytes(p.b))
                       ELSE LastOf(LAMBDA c : c.c = "body", "", LAMBDA c : BodyBytes(c.b))
Emit == PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, calls |-> calls, posts |-> posts]))
Inv == HeadersAreTheLastOnes /\ Singles /\ Emit
=============================================================================
