CONSTANTS Engine = "blind" Threads <- T Batches <- Bs
SPECIFICATION CSpec
INVARIANT Once Serial NoSpurious
PROPERTY Atomic Returns
CHECK_DEADLOCK FALSE
