SPECIFICATION Spec
CONSTANTS
  Conns = {1}
  MaxChans = 2
  MaxSlots = 4
  Keep = "output"
INVARIANTS OnlyOpen Bounded
PROPERTY Released
CHECK_DEADLOCK FALSE
