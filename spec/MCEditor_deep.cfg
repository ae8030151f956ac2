SPECIFICATION Spec
CONSTANTS
    Meshes = {"m0", "m1"}
    MaxLen = 6
    Loads = {"a.csx", "bad.csx", "-"}
VIEW View
INVARIANTS TypeOK Consent NoMeansNo NothingLost Honest SaidSo NoDocument
CHECK_DEADLOCK FALSE
