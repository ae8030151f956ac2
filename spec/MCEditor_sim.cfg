SPECIFICATION Spec
CONSTANTS
    Meshes = {"m0", "m1"}
    MaxLen = 12
    Loads = {"a.csx", "bad.csx", "-"}
INVARIANTS TypeOK Consent NoMeansNo NothingLost Honest SaidSo NoDocument
CHECK_DEADLOCK FALSE
