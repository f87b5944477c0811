SPECIFICATION MSpec
ACTION_CONSTRAINT Emit
INVARIANT Halves Moved Mirrored Metric
CHECK_DEADLOCK FALSE
