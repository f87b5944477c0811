CONSTANTS Kind = "goleveldb" Paths <- P Buckets <- B Tri <- T Vals <- V Emitted <- E
SPECIFICATION MSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Isolated Usable
PROPERTY ReadOnlyKeeps RefusedKeeps
CHECK_DEADLOCK FALSE
