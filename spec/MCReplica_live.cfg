CONSTANTS MaxKeys = 2  NK = 2  MaxLen = 4  MaxReads = 1  Drops = FALSE  StaleLen = FALSE  Blind = FALSE  Keys <- MCKeys
SPECIFICATION FairSpec
PROPERTY CatchesUp
CHECK_DEADLOCK FALSE
