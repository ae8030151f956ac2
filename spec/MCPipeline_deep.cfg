SPECIFICATION Spec
CONSTANTS
    NS = 4
    Docs = {"a"}
    MaxHist = 5
    MaxEdits = 3
CONSTRAINT Bound
INVARIANTS SessionOK LoadIsClean OneStepForth OneStepBack AllOnce NavigationAddsNothing SameAgain EditInEffect EditEqualsLoading EnabledIffUseful OpenIsMeshed RefusedIsEmpty RanIsThere
CHECK_DEADLOCK FALSE
