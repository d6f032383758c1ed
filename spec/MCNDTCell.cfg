SPECIFICATION Spec
CONSTANTS K = 1  MinPoints = 6  One = 4  Hit = 1  Miss = 1
  Batches = {2, 6}  Rays = {4}  MaxN = 8  MaxPend = 6
INVARIANTS Bounded GaussianHasPoints GaussianOccupied Conserved
PROPERTIES KeepsGaussian Monotone
CHECK_DEADLOCK FALSE
