CONSTANTS Keys <- K Values <- V Opnds <- Om MaxOps = 2 MaxVal = 12 MaxDb = 2
 NBatches = 1 NReaders = 0 NIters = 0 Windows <- None Targets <- None Calls <- C EmitOn <- E
 Ways = {"keepmerges"}
SPECIFICATION BSpec
VIEW BView
CONSTRAINT Small Short
INVARIANT Same
CHECK_DEADLOCK FALSE
