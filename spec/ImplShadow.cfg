CONSTANTS Batches = 5 Crashes = 3 Variant = ""
SPECIFICATION Spec
INVARIANT Intact
PROPERTY Durable
CHECK_DEADLOCK FALSE
