SPECIFICATION Spec
CONSTANTS
  Outs = {"o1", "o2"}
  Receive = "r"
  Packets = 2
  Pieces = 1
  MaxGrant = 4
  Design = "one"
INVARIANTS WholePackets Exclusive
PROPERTY EverythingSent
CHECK_DEADLOCK FALSE
