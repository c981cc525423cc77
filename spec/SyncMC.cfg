SPECIFICATION Spec
CONSTANTS
  N <- CfgN
  K <- CfgK
  P <- CfgP
  Threads <- CfgThreads
  Budget <- CfgBudget
  Fixed <- CfgFixed
  Ops <- CfgOps
  Colls <- CfgColls
  Bug <- CfgBug
  Log <- CfgLog
  Gone <- CfgGone
INVARIANTS NoError Intact Settled Known Swept
CHECK_DEADLOCK FALSE
