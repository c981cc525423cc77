SPECIFICATION Spec
CONSTANTS
  N <- CfgN
  K <- CfgK
  P <- CfgP
  Threads <- CfgThreads
  Budget <- CfgBudget
  Fixed <- CfgFixed
  Ops <- CfgOps
  Colls <- CfgColls
  Bug <- CfgBug
  Log <- CfgLog
  Gone <- CfgGone
INVARIANTS Report
CHECK_DEADLOCK FALSE
