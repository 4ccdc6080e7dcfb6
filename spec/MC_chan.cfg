SPECIFICATION MCSpec
CONSTANT Report <- NoReport
CONSTANT Fam = "chan"
CONSTANT MaxFeed = 4
CONSTANT MaxOut = 0
INVARIANTS AuthGate AuthAnswers SignedExact EndIsFinal NoKeysNoAuth NumbersUnique OneProcess OutputBounds WindowKept CanRest
CHECK_DEADLOCK FALSE
