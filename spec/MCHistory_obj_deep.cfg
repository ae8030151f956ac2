SPECIFICATION MCSpec
CONSTANTS MaxPoints = 3  MaxHist = 4  MaxObjs = 2  MaxAnn = 0 MaxPins = 0 MaxStep = 2 AutoGc = {TRUE} WithReset = FALSE
CONSTRAINT Bound
INVARIANTS HTypeOK C01_HistoryAlive C01_NoStutter C01_StepByStep C01_RoundTrip C01_Linear C02_Restored C03_Safe C03_Exact

CHECK_DEADLOCK FALSE
