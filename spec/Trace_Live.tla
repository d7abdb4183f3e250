----------------------------- MODULE Trace_Live -----------------------------
(* Validates recorded sessions of a live component against LiveSession and ElementTree.  A session has     *)
(* the views the component shows (the first one, then one after each event of the browser), and its runs     *)
(* are what was seen, in order: what the driver did, the component's creation, updates and end, and what      *)
(* the browser showed after each changeset.                                                                    *)
(*                                                                                                             *)
(* That the component is done with a message which does nothing cannot be seen.  So `may' is the set of         *)
(* all the values that LiveSession's `took' can have.                                                           *)
EXTENDS LiveSession, ElementTree, FiniteSetsExt, TLC, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.TRACE)
NoSet == {}
HandlesDef == 0..2     \* 0: the component itself

VARIABLES t, l, may, at
tvars == <<t, l, may, at, vars>>
S == Sessions[t]
E == S.runs[l]

TInit == /\ t \in 1..Len(Sessions) /\ l = 1 /\ may = {0} /\ at = 1 /\ Init

\* further messages which do nothing while this view is shown
Quietly(ps) == LET stop == {i \in 1..Len(up) : Runs(up[i], Calls) # <<>>}
               IN UNION {{q \in p..Len(up) : \A i \in stop : i <= p \/ i > q} : p \in ps}

Now == shown[painted]       \* what the browser shows
Paints(dom, v) == Len(dom) = 1 /\ Shows(dom[1], v.root, v.start, <<>>)
Says_(e) == Says(WayUp(Now.root, e.at, <<>>), e.ev, e.v)

\* Views may say that the component crashes where they are involved; so may the calls of a view.
Boom(v) == IF "boom" \in DOMAIN v THEN v.boom ELSE ""
Doomed(name) == \E i \in 1..Len(Calls) : Calls[i][1] = name /\ Len(Calls[i]) = 3
Latest == shown[Len(shown)]
\* the view which the event of the browser leads to, the positions in `up' at which the event may be
NextOwn == IF at < Len(S.script) THEN S.script[at + 1] ELSE Latest
Positions == LET ev == [l |-> E.listener, kind |-> E.kind, value |-> E.value]
             IN {p \in Quietly(may) : p < Len(up) /\ Runs(up[p + 1], Calls) = <<ev>>}
Crashes ==
  /\ IF E.where = "new" THEN comp = "none" /\ Boom(S.script[1]) = "new"
     ELSE /\ comp = "live"
          /\ IF E.where = "render" THEN Boom(Latest) = "render"
             ELSE /\ Boom(Latest) # "render"
                  /\ IF E.browser THEN /\ (Positions # {}) = TRUE
                                       /\ IF E.where = "call" THEN Doomed(E.listener) ELSE ~Doomed(E.listener) /\ Boom(NextOwn) = "update"
                     ELSE /\ E.where = "update" /\ did[E.handle] < Len(inbox[E.handle]) /\ E.n = did[E.handle] + 1
                          /\ Boom(inbox[E.handle][E.n]) = "update"
  /\ comp' = "crashed" /\ UNCHANGED <<shown, painted, up, took, inbox, did, left, log>>

\* the component is updated with the next input of a handle, or with the event that a message is about
Updated ==
  /\ comp = "live" /\ Boom(Latest) # "render"
  /\ IF E.browser
     THEN /\ ~Doomed(E.listener) /\ Boom(NextOwn) # "update"
          /\ LET ev == [l |-> E.listener, kind |-> E.kind, value |-> E.value]
                 ps == Positions
             IN /\ (ps # {}) = TRUE
                /\ may' = {p + 1 : p \in ps}
                /\ log' = Append(log, <<Browser, ev>>)
          /\ at' = (IF at < Len(S.script) THEN at + 1 ELSE at)
          /\ shown' = Append(shown, NextOwn)
          /\ UNCHANGED <<inbox, did>>
     ELSE LET h == E.handle IN
          /\ did[h] < Len(inbox[h]) /\ E.n = did[h] + 1 /\ Boom(inbox[h][E.n]) # "update"
          /\ did' = [did EXCEPT ![h] = @ + 1]
          /\ LET x == inbox[h][E.n]
             IN IF "views" \in DOMAIN x   \* the component sends these to itself
                THEN /\ inbox' = [inbox EXCEPT ![0] = @ \o x.views] /\ shown' = Append(shown, shown[Len(shown)])
                ELSE /\ inbox' = inbox /\ shown' = Append(shown, x)
          /\ may' = Quietly(may)
          /\ log' = Append(log, <<h, E.n>>)
          /\ UNCHANGED at
  /\ UNCHANGED <<comp, painted, up, took, left>>
Same == UNCHANGED <<may, at>>
Happens ==
  CASE E.e = "page" -> /\ comp = "none" /\ E.status = 200 /\ E.type = "text/html" /\ E.scripts = <<E.where \o "js">>
                       /\ E.scriptstatus = 200 /\ E.scripttype \in {"application/javascript", "text/javascript"}
                       /\ E.sockets = <<E.socket>> /\ E.errors = <<>>
                       /\ UNCHANGED vars /\ Same
    [] E.e = "new" -> Boom(S.script[1]) # "new" /\ Begin(S.script[1]) /\ Same
    [] E.e = "crash" -> Crashes /\ Same
    [] E.e = "update" -> Updated
    [] E.e = "changeset" -> PaintNext /\ Boom(shown[painted + 1]) # "render" /\ (E.errors = <<>> /\ E.said = <<>> /\ Paints(E.dom, shown[painted + 1])) = TRUE /\ Same
    [] E.e = "fire" -> /\ painted > 0 /\ left = "no" /\ (E.errors = <<>> /\ E.said = Says_(E)) = TRUE
                       /\ up' = up \o E.said
                       /\ UNCHANGED <<comp, shown, painted, took, inbox, did, left, log>> /\ Same
    [] E.e = "raw" -> /\ left = "no" /\ up' = Append(up, E.m)
                      /\ UNCHANGED <<comp, shown, painted, took, inbox, did, left, log>> /\ Same
    [] E.e = "input" -> /\ inbox' = [inbox EXCEPT ![E.h] = Append(@, E.x)]
                        /\ UNCHANGED <<comp, shown, painted, up, took, did, left, log>> /\ Same
    [] E.e = "leave" -> Leave(E.how) /\ Same
    \* a process that has just sent an input goes on
    [] E.e = "sends" -> E.ok = TRUE /\ UNCHANGED vars /\ Same
    \* nothing more happens
    \* (everything that a crashed component has shown was painted)
    [] E.e = "rest" /\ comp = "crashed" -> painted = Len(SelectSeq(shown, LAMBDA v : Boom(v) # "render")) /\ UNCHANGED vars /\ Same
    [] E.e = "rest" -> /\ comp = "live" /\ painted = Len(shown) /\ (Len(up) \in Quietly(may)) = TRUE
                       /\ \A h \in Handles : did[h] = Len(inbox[h])
                       /\ UNCHANGED vars /\ Same
    [] E.e = "drop" -> /\ comp = "live" /\ left # "no" /\ (left = "orderly" => Len(up) \in Quietly(may)) = TRUE
                       /\ comp' = "gone" /\ UNCHANGED <<shown, painted, up, took, inbox, did, left, log>> /\ Same
    \* long after the browser has left
    [] E.e = "over" -> comp \in {"gone", "crashed"} /\ UNCHANGED vars /\ Same
    [] OTHER -> FALSE
Step == /\ l <= Len(S.runs)
        /\ Happens
        /\ l' = l + 1 /\ UNCHANGED t
TDone == l > Len(S.runs) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step \/ TDone]_tvars
TSafe == OneViewPerUpdate /\ InputsInOrder /\ painted <= Len(shown)
=============================================================================
