SPECIFICATION SpecGen
INVARIANT Report
CHECK_DEADLOCK FALSE
