CONSTANTS Batches = 5 Crashes = 3 Variant = "reuse"
SPECIFICATION Spec
INVARIANT Intact
PROPERTY Durable
CHECK_DEADLOCK FALSE
