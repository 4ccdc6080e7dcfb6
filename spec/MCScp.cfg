SPECIFICATION Spec
CONSTANTS
  FileNames <- SomeNames
  Sizes = {0, 1, 12}
  MaxFiles = 3
INVARIANT Faithful SenderKnows LockStep NoDeadlock FailsOnlyIfBroken OnlyInside
PROPERTY Ends
CHECK_DEADLOCK FALSE
