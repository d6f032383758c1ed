SPECIFICATION TSpec
INVARIANTS AdjacencyExact EndpointsExist IterationExact
CHECK_DEADLOCK FALSE
