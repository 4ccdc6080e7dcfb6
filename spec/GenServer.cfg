SPECIFICATION GenSpec
CONSTANT Report <- NoReport
CHECK_DEADLOCK FALSE
