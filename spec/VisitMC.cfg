SPECIFICATION SpecMC
VIEW View
INVARIANTS SoundMC Decided
CHECK_DEADLOCK FALSE
