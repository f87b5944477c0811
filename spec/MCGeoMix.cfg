CONSTANTS Indexes <- X Covers <- Cov Ids1 <- I Times <- T Keys <- K Queries <- Q Several <- S Windows <- W
 MaxEnt = 3 Faults = TRUE
SPECIFICATION MSpec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Exact Nested Following DataKept
PROPERTY Alone
CHECK_DEADLOCK FALSE
