SPECIFICATION Spec
CONSTANTS MaxProps = 2
 Emit = FALSE
INVARIANTS Recovered FlagBits EmitState
PROPERTIES Grows
CHECK_DEADLOCK FALSE
