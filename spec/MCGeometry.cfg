SPECIFICATION Spec
CONSTANTS MaxCuts = 1
 Emit = FALSE
 Big = FALSE
INVARIANTS SolidIffInterior Closed Wound PlaneFromCorners FansCover OrderIndependent RepeatLaw EmitCase
PROPERTIES CutLaw KeepLaw
CHECK_DEADLOCK FALSE
