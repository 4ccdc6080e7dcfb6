SPECIFICATION TraceSpec
CONSTANT Report <- TraceReport
CHECK_DEADLOCK FALSE
