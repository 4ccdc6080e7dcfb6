SPECIFICATION Spec
CONSTANT Jobs = {1, 2}
CONSTANT Busy = {}
CONSTANT Quantum = 1
CONSTANT MaxInput = 2
CONSTANT Lifo = FALSE
CONSTANT Lost = {2}
PROPERTY Served
CHECK_DEADLOCK FALSE
