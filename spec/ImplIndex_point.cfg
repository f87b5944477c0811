CONSTANTS Depth = 2 Faces = 2 Bits = 1 Wrong = ""
SPECIFICATION Spec
INVARIANT Point Flat ReadBack
CHECK_DEADLOCK FALSE
