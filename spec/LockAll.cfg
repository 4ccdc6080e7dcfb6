SPECIFICATION Spec
CONSTANTS
  Outs = {"o1", "o2"}
  Receive = "r"
  Packets = 2
  Pieces = 1
  MaxGrant = 4
  Design = "all"
INVARIANTS WholePackets Exclusive InOrder
CHECK_DEADLOCK FALSE
