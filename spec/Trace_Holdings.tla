--------------------------- MODULE Trace_Holdings ---------------------------
(* What a running server held, measured from outside when everything was calm, against Holdings: as much as  *)
(* the connections that are open may need, and nothing of those that have ended.  Runs are "open" and "end"  *)
(* of connections (with what they may need beside their process and socket), "served" (whether a connection   *)
(* was taken and got what it was due) and "held": open files which are sockets, those which are not (a         *)
(* Lunatic process has one), and megabytes of memory.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, open, base
S == Sessions[t]
E == S.runs[l]
\* what a server has at hand that has nothing to do with its connections
Spare == 3
SpareMemory == 64

Kinds == {"http", "ws", "live"}
Roles(kind) == IF kind = "live" THEN {"pass", "reader", "main"} ELSE {"handler"}
\* the sockets and processes of one of these connections: Holdings' design has these roles at rest
Sockets(o) == 1 + o.sockets
Processes(o) == Cardinality(Roles(o.kind)) + o.processes
Sum(f(_), s) == FoldSet(LAMBDA c, n : n + f(open[c]), 0, s)

Init == t \in 1..Len(Sessions) /\ l = 1 /\ open = <<>> /\ base = [e |-> "none"]
Happens ==
  CASE E.e = "open" -> /\ (E.c \notin DOMAIN open /\ E.kind \in Kinds) = TRUE
                       /\ open' = (E.c :> [kind |-> E.kind, sockets |-> E.sockets, processes |-> E.processes]) @@ open /\ UNCHANGED base
    [] E.e = "end" -> /\ (E.c \in DOMAIN open) = TRUE /\ open' = [c \in DOMAIN open \ {E.c} |-> open[c]] /\ UNCHANGED base
    [] E.e = "served" -> E.ok = TRUE /\ UNCHANGED <<open, base>>
    [] E.e = "held" ->
         IF base.e = "none" THEN base' = E /\ UNCHANGED open
         ELSE /\ (E.sockets <= base.sockets + Sum(Sockets, DOMAIN open) + Spare) = TRUE
              /\ (E.files <= base.files + Sum(Processes, DOMAIN open) + Spare) = TRUE
              /\ (E.memory <= base.memory + 4 * Cardinality(DOMAIN open) + SpareMemory) = TRUE
              /\ UNCHANGED <<open, base>>
    [] OTHER -> FALSE
Step == l <= Len(S.runs) /\ Happens /\ l' = l + 1 /\ UNCHANGED t
TDone == l > Len(S.runs) /\ UNCHANGED <<t, l, open, base>>
TSpec == Init /\ [][Step \/ TDone]_<<t, l, open, base>>
TypeOK == l >= 1
=============================================================================
