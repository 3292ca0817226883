SPECIFICATION Spec
CONSTANTS Attr = {1, 2, 3}
 Size = 1
 Rule = "equal"
INVARIANTS Lossless NoDuplicates InRange InTriples
PROPERTIES AppendOnly Ends
CHECK_DEADLOCK FALSE
