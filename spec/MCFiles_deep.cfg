SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Runs = 2
VIEW View
PROPERTIES NoOverwrite OnlyOutput Whole Refusal BadAlways Again RoundTrip Apart Without
CHECK_DEADLOCK FALSE
