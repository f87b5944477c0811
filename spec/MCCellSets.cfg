CONSTANTS Paths <- P Chars <- C Known <- K Len1 = 4 Len2 = 3 Len3 = 2 TextLen = 0
SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANT Struck StruckRuns Unites Means Written
CHECK_DEADLOCK FALSE
