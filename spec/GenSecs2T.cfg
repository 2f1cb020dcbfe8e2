INIT Init
NEXT NextGen
CONSTANTS
  MaxNodes = 3
  Fmts = {"L", "B", "BOOL", "A", "I1", "I2", "I4", "I8", "U1", "U2", "U4", "U8", "F4", "F8"}
  EmitScn = TRUE
  Bytes = {}
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
