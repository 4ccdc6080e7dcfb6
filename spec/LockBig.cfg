SPECIFICATION Spec
CONSTANTS
  Outs = {"o1", "o2", "o3"}
  Receive = "r"
  Packets = 1
  Pieces = 2
  MaxGrant = 3
  Design = "queue"
INVARIANTS WholePackets Exclusive NoLostWakeUp WithinWindow InOrder
PROPERTY EverythingSent
CHECK_DEADLOCK FALSE
