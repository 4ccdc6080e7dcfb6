SPECIFICATION Spec
CONSTANT Warm = 12
CONSTANT Slack = 200
CHECK_DEADLOCK FALSE
