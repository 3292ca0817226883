SPECIFICATION Spec
CONSTANTS Layers = {1, 2, 3}
 Keys = {1, 2, 3}
 Ordered = TRUE
 Runs = 3
INVARIANT SameEveryTime
CHECK_DEADLOCK FALSE
