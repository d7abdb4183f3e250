SPECIFICATION Spec
CONSTANTS Conns = {c1, c2}
 Servers <- ServersQuick
 Plans <- PlansQuick
 Acts <- ActsQuick
INVARIANT Safe
PROPERTIES Implements EveryoneServed AlwaysAccepting
CHECK_DEADLOCK FALSE
