SPECIFICATION Spec
CONSTANTS Conns = {c1, c2, c3}
 Servers <- ServersBig
 Plans <- PlansBig
 Acts <- ActsQuick
INVARIANT Safe
PROPERTIES Implements
CHECK_DEADLOCK FALSE
