------------------------------ MODULE Holdings ------------------------------
(* What a server holds while it serves: processes, and handles of sockets.  A connection is taken by a     *)
(* process of its own; a live view goes on in three: one which passes on the application's inputs, one which  *)
(* reads what the browser sends and the component itself.  A process that ends gives back what it holds; one   *)
(* that fails takes those along which are linked to it, one that just ends does not.                            *)
(*                                                                                                              *)
(* A server can hold Room things at once; a connection is taken when there is room.  Everybody who comes is       *)
(* taken, if all clients leave at last (Everybody), because nothing is kept of those who have left (GivenBack).    *)
EXTENDS Integers, FiniteSets
CONSTANTS Conns, Kinds, Room, Most, \* at most so many clients at once
          Linked                    \* the reader is linked to the process which passes on the inputs

VARIABLES kind, client, procs, has, told
vars == <<kind, client, procs, has, told>>
Roles == {"handler", "pass", "reader", "main"}

\* procs: the processes that are alive; has: those which have a handle of their connection's socket
Init == /\ kind \in [Conns -> Kinds] /\ client = [c \in Conns |-> "none"]
        /\ procs = {} /\ has = {} /\ told = {}
Of(c) == {p \in procs : p[1] = c}
Socket(c) == \E p \in has : p[1] = c
Held(c) == Cardinality(Of(c)) + (IF Socket(c) THEN 1 ELSE 0)
RECURSIVE Total(_)
Total(cs) == IF cs = {} THEN 0 ELSE LET c == CHOOSE x \in cs : TRUE IN Held(c) + Total(cs \ {c})
\* no connection ever has more
Need == 5
InUse == {c \in Conns : client[c] \in {"waits", "open"}}

\* ---- the clients ----------------------------------------------------------------------------------------
Come(c) == client[c] = "none" /\ Cardinality(InUse) < Most /\ client' = [client EXCEPT ![c] = "waits"] /\ UNCHANGED <<kind, procs, has, told>>
Leave(c) == client[c] \in {"waits", "open"} /\ client' = [client EXCEPT ![c] = IF @ = "waits" THEN "never" ELSE "gone"] /\ UNCHANGED <<kind, procs, has, told>>
\* ---- the server -----------------------------------------------------------------------------------------
Accept(c) == /\ client[c] = "waits" /\ Total(Conns) + Need <= Room
             /\ client' = [client EXCEPT ![c] = "open"]
             /\ procs' = procs \cup {<<c, "handler">>} /\ has' = has \cup {<<c, "handler">>} /\ UNCHANGED <<kind, told>>
Dies(ps) == procs' = procs \ ps /\ has' = has \ ps
\* a request has been answered (or its handler has failed)
Answered(c) == kind[c] = "http" /\ <<c, "handler">> \in procs /\ Dies({<<c, "handler">>}) /\ UNCHANGED <<kind, client, told>>
\* the handler of a WebSocket: it may end at any time; it does once the client has left
HandlerEnds(c) == kind[c] = "ws" /\ <<c, "handler">> \in procs /\ Dies({<<c, "handler">>}) /\ UNCHANGED <<kind, client, told>>
\* manage: the handler's process is done with that
Manage(c) == /\ kind[c] = "live" /\ <<c, "handler">> \in procs
             /\ procs' = (procs \ {<<c, "handler">>}) \cup {<<c, "pass">>, <<c, "reader">>, <<c, "main">>}
             /\ has' = (has \ {<<c, "handler">>}) \cup {<<c, "reader">>, <<c, "main">>}
             /\ UNCHANGED <<kind, client, told>>
ReaderEnds(c) == /\ client[c] = "gone" /\ <<c, "reader">> \in procs
                 /\ told' = told \cup {c}
                 /\ Dies({<<c, "reader">>} \cup (IF Linked THEN {<<c, "pass">>} ELSE {}))
                 /\ UNCHANGED <<kind, client>>
MainEnds(c) == c \in told /\ <<c, "main">> \in procs /\ Dies({<<c, "main">>}) /\ UNCHANGED <<kind, client, told>>
\* the component fails
Crash(c) == <<c, "main">> \in procs /\ Dies({<<c, "main">>}) /\ UNCHANGED <<kind, client, told>>

Server(c) == Answered(c) \/ HandlerEnds(c) \/ Manage(c) \/ ReaderEnds(c) \/ MainEnds(c)
Next == \E c \in Conns : Come(c) \/ Leave(c) \/ Accept(c) \/ Server(c) \/ Crash(c)
Fair == \A c \in Conns : /\ SF_vars(Accept(c)) /\ WF_vars(Answered(c)) /\ WF_vars(client[c] = "gone" /\ HandlerEnds(c))
                         /\ WF_vars(Manage(c)) /\ WF_vars(ReaderEnds(c)) /\ WF_vars(MainEnds(c)) /\ WF_vars(client[c] = "open" /\ Leave(c))
Spec == Init /\ [][Next]_vars /\ Fair

\* ---- what follows -----------------------------------------------------------------------------------------
HandlesHaveOwners == has \subseteq procs
NeverMore == \A c \in Conns : Held(c) <= Need /\ (client[c] \in {"none", "waits", "never"} => Held(c) = 0)
Safe == HandlesHaveOwners /\ NeverMore
GivenBack == \A c \in Conns : (client[c] = "gone") ~> (Held(c) = 0)
StaysGivenBack == [][\A c \in Conns : (client[c] = "gone" /\ Held(c) = 0) => Held(c)' = 0]_vars
Everybody == \A c \in Conns : (client[c] = "waits") ~> (client[c] # "waits")
=============================================================================
