SPECIFICATION Spec
CONSTANTS Depth = 5
 Emit = FALSE
 Alphabet = "nest"
INVARIANTS RejectsExactlyBadNesting ScopeIsDepth Faithful AcceptedExactly EmitState
PROPERTIES OnlyLastGrows RejectIsFinal
CHECK_DEADLOCK FALSE
