SPECIFICATION Spec
CONSTANTS
    MaxParts = 4
    MaxPolygons = 1
INVARIANTS Unique Complete Connected ReadBack Accepted Tight
PROPERTIES Told
CHECK_DEADLOCK FALSE
