SPECIFICATION Spec
CONSTANTS
  Conns = {1, 2, 3}
  MaxChans = 2
  MaxSlots = 4
  Keep = "none"
INVARIANTS OnlyOpen Bounded
PROPERTY Released
CHECK_DEADLOCK FALSE
