CONSTANTS Depth = 2 Faces = 1 Bits = 1 Wrong = "last"
SPECIFICATION Spec
INVARIANT Point
CHECK_DEADLOCK FALSE
