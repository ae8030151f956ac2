SPECIFICATION Spec
CONSTANTS N = 2 NShapes = 1 Quads = TRUE MinAngles = {20, 60}
INVARIANTS C16_Angle C16_Join C16_Ends C16_Refined
PROPERTIES Accepted Tight
CHECK_DEADLOCK FALSE
