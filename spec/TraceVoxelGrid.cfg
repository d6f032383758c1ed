SPECIFICATION TSpec
CONSTANT T = 16
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
