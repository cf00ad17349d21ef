CONSTANTS MaxKeys = 2  NK = 2  MaxLen = 4  MaxReads = 2  Drops = FALSE  StaleLen = TRUE  Blind = FALSE  Keys <- MCKeys
SPECIFICATION Spec
INVARIANT RightOrError
CHECK_DEADLOCK FALSE
