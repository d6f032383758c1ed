SPECIFICATION Spec
CONSTANTS MaxNodes = 2  MaxSlots = 3  Attrs = FALSE
INVARIANTS AdjacencyExact EndpointsExist IterationExact
PROPERTIES EdgesStable NodesStable
CHECK_DEADLOCK FALSE
