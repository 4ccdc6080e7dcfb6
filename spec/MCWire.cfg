SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANT RoundTrip OneMeaning NoPrefix NothingLeft
CHECK_DEADLOCK FALSE
