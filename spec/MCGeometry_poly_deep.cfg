SPECIFICATION GSpec
CONSTANTS N = 2 Mode = "poly" NPts = 5
INVARIANTS C14_Symmetric C14_Definition C14_Parts C14_PolyInvariant C15_Sides C14_Pick
CHECK_DEADLOCK FALSE
