SPECIFICATION Spec
CONSTANTS
  FileNames <- ManyNames
  Sizes = {0, 1, 3, 12}
  MaxFiles = 3
INVARIANT Faithful SenderKnows LockStep NoDeadlock FailsOnlyIfBroken OnlyInside
PROPERTY Ends
CHECK_DEADLOCK FALSE
