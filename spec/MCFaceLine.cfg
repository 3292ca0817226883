SPECIFICATION Spec
INVARIANT Agree BaseRead PrintLine
PROPERTY Forward
CONSTANTS
  Edits = 1
  MaxExtra = 7
  Lenient = FALSE
  Emit = FALSE
CHECK_DEADLOCK FALSE
