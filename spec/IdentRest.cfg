SPECIFICATION SpecRest
CONSTANTS
  Alphabet = {"S", "CR", "LF"}
  MaxLen = 15
  MaxId = 9
INVARIANT Exact
CHECK_DEADLOCK FALSE
