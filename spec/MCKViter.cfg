CONSTANTS Keys <- K Values <- V Opnds <- O MaxOps = 1 MaxVal = 8 MaxDb = 4
 NBatches = 1 NReaders = 1 NIters = 1 Windows <- W Targets <- T Calls <- C EmitOn <- E
SPECIFICATION MSpec
VIEW View
CONSTRAINT Small
ACTION_CONSTRAINT First1 Emit
INVARIANT TypeOK IterExact CompactTwice
PROPERTY ExecExact OnlyExec Frozen OpenedNow CompactExact
CHECK_DEADLOCK FALSE
