CONSTANTS Batches = 4 Crashes = 3 Variant = "half"
SPECIFICATION Spec
INVARIANT Kept WholeOrNot Nothing InOrder
PROPERTY Recovers
CHECK_DEADLOCK FALSE
