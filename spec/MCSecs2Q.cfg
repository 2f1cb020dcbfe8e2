SPECIFICATION Spec
CONSTANTS
  MaxNodes = 3
  Fmts = {"L", "BOOL", "A", "I1", "U2", "F8"}
  EmitScn = FALSE
  Bytes = {0, 1, 255}
INVARIANTS RoundTrip Faithful Shortened
CHECK_DEADLOCK FALSE
