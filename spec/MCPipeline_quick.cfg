SPECIFICATION Spec
CONSTANTS
    NS = 4
    Docs = {"a", "b"}
    MaxHist = 4
    MaxEdits = 2
CONSTRAINT Bound
INVARIANTS SessionOK LoadIsClean OneStepForth OneStepBack AllOnce NavigationAddsNothing SameAgain EditInEffect EditEqualsLoading EnabledIffUseful OpenIsMeshed RefusedIsEmpty RanIsThere
CHECK_DEADLOCK FALSE
