SPECIFICATION Spec
CONSTANTS Textures = {"*water0", "*slime0", "t0"}
 Faces = 4
 Mode = "layers"
 Emit = FALSE
INVARIANTS RoutedRight EachFaceOnce OneSurfacePerTexture NoRepeats HiddenRight LayersShowAll EmitCase
PROPERTIES Ends
CHECK_DEADLOCK FALSE
