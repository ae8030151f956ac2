SPECIFICATION Spec
CONSTANTS
    MaxId = 3
    MaxSink = 5
INVARIANTS LogOK EachOnceOrOne OneAnswer SetWorks AskedFor
CHECK_DEADLOCK FALSE
