SPECIFICATION Spec
CONSTANTS
  Alphabet = {"S", "H", "-", "V", "CR", "LF"}
  MaxLen = 7
  MaxId = 6
INVARIANT Exact
CHECK_DEADLOCK FALSE
