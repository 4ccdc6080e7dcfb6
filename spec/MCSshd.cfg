SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  MaxIn = 1
INVARIANT Gate Results
PROPERTY Isolated Served
CHECK_DEADLOCK FALSE
