SPECIFICATION Spec
CONSTANTS
  N <- CfgN
  K <- CfgK
  X <- CfgX
  Budget <- CfgBudget
  Always <- CfgAlways
  Bug <- CfgBug
INVARIANTS Report
CHECK_DEADLOCK FALSE
