SPECIFICATION Spec
CONSTANTS Jobs = 2
 Threads = 2
 FileLen = 4
 Shared = FALSE
 Stops = TRUE
INVARIANT SameAsSequential
PROPERTY Ends
CHECK_DEADLOCK FALSE
