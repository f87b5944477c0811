CONSTANTS Keys <- K Values <- V Opnds <- O MaxOps = 1 MaxVal = 2 MaxDb = 2
 NBatches = 1 NReaders = 1 NIters = 0 Windows <- None Targets <- None Calls <- C EmitOn <- E
SPECIFICATION MSpec
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Brisk Once Emit
INVARIANT TypeOK
PROPERTY ExecExact OnlyExec Frozen OpenedNow
CHECK_DEADLOCK FALSE
