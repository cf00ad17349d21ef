CONSTANTS MaxKeys = 2  Clients = {"a", "b"}  NK = 2  MaxCalls = 2  MaxLen = 5
  Locking = TRUE  InPlace = FALSE  Leaky = TRUE  Hasty = FALSE  Floating = FALSE  Failures = {"append", "cancel"}  Keys <- MCKeys
  Ops = {"get", "put", "del"}
SPECIFICATION FairSpec
PROPERTY AllReturn
CHECK_DEADLOCK FALSE
