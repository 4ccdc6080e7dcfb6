SPECIFICATION Spec
CONSTANT Jobs = {1, 2, 3, 4}
CONSTANT Busy = {1, 2}
CONSTANT Quantum = 3
CONSTANT MaxInput = 2
CONSTANT Lifo = FALSE
CONSTANT Lost = {}
PROPERTY Served
INVARIANT Bounded
CHECK_DEADLOCK FALSE
