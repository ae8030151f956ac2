SPECIFICATION TraceSpec
CONSTANT NS = 15
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
