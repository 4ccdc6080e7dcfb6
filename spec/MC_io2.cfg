SPECIFICATION MCSpec
CONSTANT Report <- NoReport
CONSTANT Fam = "io"
CONSTANT MaxFeed = 2
CONSTANT MaxOut = 3
INVARIANTS AuthGate AuthAnswers SignedExact EndIsFinal NoKeysNoAuth NumbersUnique OneProcess OutputBounds WindowKept CanRest
CHECK_DEADLOCK FALSE
