--------------------------- MODULE SharedSocket ---------------------------
(* Several processes send on one WebSocket.  A frame goes to the connection in one or several writes; a write *)
(* is taken as far as there is room for it, and what is left of it is written later.  Design-level statement   *)
(* of C29: what the client has received is whole frames, one after the other, each process' in its order.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANTS Frames,     \* process -> its frames, each a sequence of the writes it takes (sequences of bytes)
          Room,       \* how many bytes the connection holds
          Locked      \* a process keeps the connection for itself until its frame is written

P == DOMAIN Frames
VARIABLES k,          \* frames which p has begun
          left,       \* the writes of the frame p is at
          owner,      \* {} or {p}
          buf, rcvd,  \* bytes under way; bytes the client has
          order       \* frames in the order they were begun: <<p, which>>
vars == <<k, left, owner, buf, rcvd, order>>

Init == /\ k = [p \in P |-> 0] /\ left = [p \in P |-> <<>>] /\ owner = {} /\ buf = <<>> /\ rcvd = <<>> /\ order = <<>>

Begin(p) == /\ left[p] = <<>> /\ k[p] < Len(Frames[p])
            /\ Locked => owner = {}
            /\ owner' = IF Locked THEN {p} ELSE {}
            /\ k' = [k EXCEPT ![p] = @ + 1]
            /\ left' = [left EXCEPT ![p] = Frames[p][k[p] + 1]]
            /\ UNCHANGED <<buf, rcvd, order>>
\* the next write is taken, as far as there is room
Write(p) == /\ left[p] # <<>> /\ Len(buf) < Room
            /\ LET w == left[p][1]
                   n == IF Len(w) < Room - Len(buf) THEN Len(w) ELSE Room - Len(buf)
                   rest == IF n = Len(w) THEN SubSeq(left[p], 2, Len(left[p])) ELSE <<SubSeq(w, n + 1, Len(w))>> \o SubSeq(left[p], 2, Len(left[p]))
               IN /\ buf' = buf \o SubSeq(w, 1, n)
                  /\ left' = [left EXCEPT ![p] = rest]
                  /\ owner' = IF rest = <<>> THEN owner \ {p} ELSE owner
                  /\ order' = IF left[p] = Frames[p][k[p]] THEN Append(order, <<p, k[p]>>) ELSE order
            /\ UNCHANGED <<k, rcvd>>
\* the client reads some of what has arrived
Takes == \E n \in 1..Len(buf) : /\ rcvd' = rcvd \o SubSeq(buf, 1, n) /\ buf' = SubSeq(buf, n + 1, Len(buf))
                                /\ UNCHANGED <<k, left, owner, order>>
Next == Takes \/ \E p \in P : Begin(p) \/ Write(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Takes) /\ \A p \in P : WF_vars(Begin(p)) /\ WF_vars(Write(p))

Whole(o) == FlattenSeq(Frames[o[1]][o[2]])
AllOf(os) == FlattenSeq([i \in DOMAIN os |-> Whole(os[i])])
\* nothing but whole frames, and perhaps the beginning of one more
Unmixed == LET w == rcvd \o buf IN /\ IsPrefix(w, AllOf(order))
                                   /\ order # <<>> => Len(w) > Len(AllOf(Front(order)))
InOrder == \A i, j \in DOMAIN order : i < j /\ order[i][1] = order[j][1] => order[i][2] < order[j][2]
Arrives == <>(Len(rcvd) = Len(FlattenSeq([i \in 1..Cardinality(P) |-> FlattenSeq([f \in DOMAIN Frames[i] |-> FlattenSeq(Frames[i][f])])])))
=============================================================================
