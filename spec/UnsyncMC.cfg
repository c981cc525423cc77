SPECIFICATION Spec
CONSTANTS
  N <- CfgN
  K <- CfgK
  X <- CfgX
  Budget <- CfgBudget
  Always <- CfgAlways
  Bug <- CfgBug
INVARIANTS NoError Settled Known Intact
CHECK_DEADLOCK FALSE
