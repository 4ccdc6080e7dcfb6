SPECIFICATION Spec
CONSTANT MaxPolls = 10000
CONSTANT MaxBytes = 2000000
CHECK_DEADLOCK FALSE
