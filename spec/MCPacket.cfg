SPECIFICATION Spec
CONSTANT MaxPayload = 600
INVARIANT Possible Inverse Exact
CHECK_DEADLOCK FALSE
