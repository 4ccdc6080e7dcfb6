SPECIFICATION Spec
CONSTANTS MaxPackets = 5
Plains = {"a", "b", "c"}
INVARIANT InOrder Fresh NotStuck
CHECK_DEADLOCK FALSE
