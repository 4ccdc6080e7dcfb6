SPECIFICATION Spec
CONSTANTS
  Packets = 3
  Body = 1
  Attacks = 2
INVARIANTS Prefix Numbers

CHECK_DEADLOCK FALSE
