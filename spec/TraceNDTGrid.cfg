CONSTANTS T = 16 MinPoints = 6 One = 1000000 Hit = 405465 Miss = 200000
SPECIFICATION TSpec
INVARIANTS WellPlaced InExtent Bounded
