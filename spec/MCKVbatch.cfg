CONSTANTS Keys <- K Values <- V Opnds <- O MaxOps = 3 MaxVal = 12 MaxDb = 2
 NBatches = 1 NReaders = 0 NIters = 0 Windows <- None Targets <- None Calls <- C EmitOn <- E
SPECIFICATION MSpec
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Emit
INVARIANT TypeOK IterExact CompactTwice
PROPERTY ExecExact OnlyExec Frozen OpenedNow CompactExact
CHECK_DEADLOCK FALSE
