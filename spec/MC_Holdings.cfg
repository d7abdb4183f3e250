SPECIFICATION Spec
CONSTANTS Conns = {c1, c2, c3}
 Kinds = {"http", "ws", "live"}
 Room = 10
 Most = 2
 Linked = TRUE
INVARIANT Safe
PROPERTIES GivenBack StaysGivenBack Everybody
CHECK_DEADLOCK FALSE
