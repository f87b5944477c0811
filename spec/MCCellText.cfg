CONSTANTS Paths <- P Chars <- C Known <- K Len1 = 0 Len2 = 0 Len3 = 0 TextLen = 3
SPECIFICATION Spec
ACTION_CONSTRAINT Emit
INVARIANT Struck Unites Means Written
CHECK_DEADLOCK FALSE
