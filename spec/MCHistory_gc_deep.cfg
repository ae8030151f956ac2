SPECIFICATION MCSpec
CONSTANTS MaxPoints = 4  MaxHist = 3  MaxObjs = 1  MaxAnn = 1 MaxPins = 1 MaxStep = 1 AutoGc = {TRUE, FALSE} WithReset = TRUE
CONSTRAINT Bound
INVARIANTS HTypeOK C01_HistoryAlive C01_NoStutter C01_StepByStep C01_RoundTrip C01_Linear C02_Restored C03_Safe C03_Exact
PROPERTIES NoLoss NoLeak
CHECK_DEADLOCK FALSE
