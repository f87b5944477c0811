CONSTANTS Depth = 1 Faces = 1 Bits = 2 Wrong = "direct"
SPECIFICATION Spec
INVARIANT Time
CHECK_DEADLOCK FALSE
