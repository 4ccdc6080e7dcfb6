SPECIFICATION Spec
CONSTANT Jobs = {1, 2}
CONSTANT Busy = {1}
CONSTANT Quantum = 0
CONSTANT MaxInput = 2
CONSTANT Lifo = FALSE
CONSTANT Lost = {}
PROPERTY Served
CHECK_DEADLOCK FALSE
