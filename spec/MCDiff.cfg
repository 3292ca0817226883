SPECIFICATION Spec
CONSTANTS Tokens = {"x", "y"}
 MaxLen = 4
 Complete = TRUE
 Emit = FALSE
INVARIANTS NoneShorter WalksAreValid ComputedIsShortest OnlyWalksAreValid EmitState
CHECK_DEADLOCK FALSE
