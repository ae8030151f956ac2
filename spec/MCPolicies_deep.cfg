SPECIFICATION Spec
CONSTANTS NPol = 4 K = 4 Limits = {0, 1} Dmaxs = {2} Lmins = {1}
INVARIANTS C11_Accepted C12_Accepted C13_Accepted C11_Tight C12_Tight C13_Tight C11_Apart C11_Kept C11_Within C11_Line C11_Facing C11_Ends C12_Cover C12_Sum C13_Spacing C13_Enough
CHECK_DEADLOCK FALSE
