SPECIFICATION Spec
CONSTANTS
    MaxId = 5
    MaxSink = 8
INVARIANTS LogOK EachOnceOrOne OneAnswer SetWorks AskedFor
CHECK_DEADLOCK FALSE
