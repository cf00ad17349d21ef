CONSTANTS MaxKeys = 2  Clients = {"a", "b"}  NK = 2  MaxCalls = 2  MaxLen = 5
  Locking = TRUE  InPlace = FALSE  Leaky = FALSE  Hasty = FALSE  Floating = FALSE  Failures = {"get", "append", "lost", "cancel", "crash"}  Keys <- MCKeys
  Ops = {"get", "put", "del", "cput", "cdel", "hdr", "walk"}
SPECIFICATION FairSpec
PROPERTY AllReturn
CHECK_DEADLOCK FALSE
