CONSTANTS Keys <- K Values <- V Opnds <- O MaxOps = 1 MaxVal = 8 MaxDb = 4
 NBatches = 1 NReaders = 1 NIters = 1 Windows <- W Targets <- T Calls <- C EmitOn <- E
 Engines = {"noend"}
SPECIFICATION ISpec
VIEW IView
CONSTRAINT Small
ACTION_CONSTRAINT First1
INVARIANT Where
CHECK_DEADLOCK FALSE
