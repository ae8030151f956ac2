SPECIFICATION Spec
CONSTANTS Full = TRUE
INVARIANTS Excluded Local Turned Coherent Accounted First
CHECK_DEADLOCK FALSE
