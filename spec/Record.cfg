SPECIFICATION Spec
CONSTANTS
  Packets = 2
  Body = 1
  Attacks = 2
INVARIANTS Prefix Numbers
PROPERTIES Delivered Ends
CHECK_DEADLOCK FALSE
