CONSTANTS MaxKeys = 2  NK = 3  MaxLen = 5  MaxReads = 2  Drops = FALSE  StaleLen = FALSE  Blind = FALSE  Keys <- MCKeys
SPECIFICATION Spec
INVARIANTS PrefixesAreStores RightOrError OnlyOwnPath
PROPERTY NoErrorWhenComplete
CHECK_DEADLOCK FALSE
