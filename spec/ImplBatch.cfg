CONSTANTS Keys <- K Values <- V Opnds <- Om MaxOps = 3 MaxVal = 12 MaxDb = 2
 NBatches = 1 NReaders = 0 NIters = 0 Windows <- None Targets <- None Calls <- C EmitOn <- E
 Ways = {"never", "always", "odd", "leveldb-up", "leveldb-down"}
SPECIFICATION BSpec
VIEW BView
CONSTRAINT Small Short
INVARIANT Same
CHECK_DEADLOCK FALSE
