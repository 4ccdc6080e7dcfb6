SPECIFICATION MCSpec
CONSTANT Report <- NoReport
CONSTANT Fam = "two"
CONSTANT MaxFeed = 2
CONSTANT MaxOut = 1
INVARIANTS AuthGate AuthAnswers SignedExact EndIsFinal NoKeysNoAuth NumbersUnique OneProcess OutputBounds WindowKept CanRest
CHECK_DEADLOCK FALSE
