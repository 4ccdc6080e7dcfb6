SPECIFICATION Spec
CONSTANTS
  Outs = {"o1", "o2"}
  Receive = "r"
  Packets = 2
  Pieces = 2
  MaxGrant = 4
  Design = "queue"
INVARIANTS WholePackets Exclusive NoLostWakeUp WithinWindow InOrder
PROPERTY EverythingSent
CHECK_DEADLOCK FALSE
