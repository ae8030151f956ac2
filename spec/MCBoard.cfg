SPECIFICATION Spec
CONSTANTS N = 2 NShapes = 2 Zs <- Zs1 Prs = {0, 1} Ms = {1, 2} Bgs = {0} Fxs <- FxsQ Triangles = TRUE
INVARIANTS C10_Covered C08_OnePerPlace C09_Free C09_Buried C15_Facing Laws_Mirror Laws_Swap Laws_Retrace Laws_Order
PROPERTIES Accepted Tight
CHECK_DEADLOCK FALSE
