SPECIFICATION Spec
CONSTANTS Emit = TRUE
 Values = {0, 1, 127, 128, 255}
 Cuts = TRUE
INVARIANTS CutNeverLies Complete Undamaged EmitState
CHECK_DEADLOCK FALSE
