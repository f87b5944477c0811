CONSTANTS Keys <- K Values <- V Opnds <- O MaxOps = 4 MaxVal = 8 MaxDb = 4
 NBatches = 1 NReaders = 1 NIters = 0 Windows <- None Targets <- None Calls <- C EmitOn <- E
SPECIFICATION MSpec
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Brisk Grow Emit
INVARIANT TypeOK IterExact CompactTwice
PROPERTY ExecExact OnlyExec Frozen OpenedNow CompactExact
CHECK_DEADLOCK FALSE
