SPECIFICATION Spec
CONSTANT Jobs = {1, 2, 3}
CONSTANT Busy = {1}
CONSTANT Quantum = 2
CONSTANT MaxInput = 2
CONSTANT Lifo = TRUE
CONSTANT Lost = {}
INVARIANT Bounded
CHECK_DEADLOCK FALSE
