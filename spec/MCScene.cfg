SPECIFICATION Spec
CONSTANTS N = 3
 Ids = {"1", "2"}
 FirstOnly = TRUE
 Guarded = TRUE
 Emit = FALSE
INVARIANTS Bounded EachOnce ParentFirst WorldFirst FileOrder BuildsTree LeftOut OriginsSum EmitCase
PROPERTIES Ends
CHECK_DEADLOCK FALSE
