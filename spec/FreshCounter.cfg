SPECIFICATION Spec
CONSTANT Seedings = {"counter"}
CONSTANT MaxConns = 2
CONSTANT MaxRuns = 2
INVARIANT AllFresh
CHECK_DEADLOCK FALSE
