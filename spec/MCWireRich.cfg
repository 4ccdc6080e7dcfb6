SPECIFICATION Spec
CONSTANT Rich = TRUE
INVARIANT RoundTrip OneMeaning NoPrefix NothingLeft
CHECK_DEADLOCK FALSE
