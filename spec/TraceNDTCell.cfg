SPECIFICATION TSpec
CONSTANTS K = 1000  MinPoints = 6  One = 1000000  Hit = 405465  Miss = 200000
CHECK_DEADLOCK FALSE
