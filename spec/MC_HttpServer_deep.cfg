SPECIFICATION Spec
CONSTANTS Conns = {c1, c2}
 Servers <- ServersDef
 Plans <- PlansDef
 Acts <- ActsDef
INVARIANT Safe
PROPERTIES Implements EveryoneServed AlwaysAccepting
CHECK_DEADLOCK FALSE
