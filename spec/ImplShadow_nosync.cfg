CONSTANTS Batches = 5 Crashes = 3 Variant = "nosync"
SPECIFICATION Spec
INVARIANT Intact
PROPERTY Durable
CHECK_DEADLOCK FALSE
