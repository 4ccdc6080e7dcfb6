SPECIFICATION Spec
CONSTANT Seedings = {"entropy", "shared"}
CONSTANT MaxConns = 3
CONSTANT MaxRuns = 3
INVARIANT AllFresh
CHECK_DEADLOCK FALSE
