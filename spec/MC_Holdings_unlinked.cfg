SPECIFICATION Spec
CONSTANTS Conns = {c1, c2, c3}
 Kinds = {"live"}
 Room = 6
 Most = 1
 Linked = FALSE
INVARIANT Safe
PROPERTIES Everybody
CHECK_DEADLOCK FALSE
