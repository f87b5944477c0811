CONSTANTS Depth = 1 Faces = 1 Bits = 3 Wrong = ""
SPECIFICATION Spec
INVARIANT Time Latest ReadBack
CHECK_DEADLOCK FALSE
