SPECIFICATION GSpec
CONSTANTS Conns <- ConnsDef
 Servers <- ServersDef
 Plans <- PlansDef
 Acts <- ActsDef
CHECK_DEADLOCK FALSE
