SPECIFICATION GSpec
CONSTANTS N = 3 Mode = "seg" NPts = 3
INVARIANTS C14_Symmetric C14_Definition C14_Parts C14_PolyInvariant C15_Sides C14_Pick
CHECK_DEADLOCK FALSE
