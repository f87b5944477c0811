CONSTANTS Keys <- K Values <- V Opnds <- O MaxOps = 1 MaxVal = 8 MaxDb = 2
 NBatches = 1 NReaders = 2 NIters = 1 Windows <- W Targets <- T Calls <- C EmitOn <- E
SPECIFICATION MSpec
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT Brisk Once Emit
INVARIANT TypeOK IterExact CompactTwice
PROPERTY ExecExact OnlyExec Frozen OpenedNow CompactExact
CHECK_DEADLOCK FALSE
