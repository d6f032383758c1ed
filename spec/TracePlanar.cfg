SPECIFICATION TSpec
CONSTANT NR = 3
CHECK_DEADLOCK FALSE
