SPECIFICATION SpecMC
INVARIANT SoundMC
CHECK_DEADLOCK FALSE
