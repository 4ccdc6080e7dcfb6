SPECIFICATION Spec
CONSTANT MaxPayload = 3000
INVARIANT Possible Inverse Exact
CHECK_DEADLOCK FALSE
