CONSTANTS MaxKeys = 2  NK = 3  MaxLen = 5  MaxReads = 2  Drops = FALSE  StaleLen = FALSE  Blind = TRUE  Keys <- MCKeys
SPECIFICATION Spec
INVARIANT RightOrError
CHECK_DEADLOCK FALSE
