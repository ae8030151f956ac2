SPECIFICATION Spec
CONSTANTS Full = FALSE
INVARIANTS Excluded Local Turned Coherent Accounted First
CHECK_DEADLOCK FALSE
