SPECIFICATION Spec
CONSTANTS
  MaxNodes = 3
  Fmts = {"L", "B", "BOOL", "A", "I1", "I8", "U2", "F4", "F8"}
  EmitScn = FALSE
  Bytes = {0, 1, 3, 65, 255}
INVARIANTS RoundTrip Faithful Shortened
CHECK_DEADLOCK FALSE
