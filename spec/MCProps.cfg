SPECIFICATION Spec
CONSTANTS Rule = "declared"
 Emit = FALSE
INVARIANTS TableIsRight OncePerName EveryDeclared OnlyKnown EmitCase
PROPERTIES Ends
CHECK_DEADLOCK FALSE
