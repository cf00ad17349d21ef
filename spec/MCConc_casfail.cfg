CONSTANTS MaxKeys = 2  Clients = {"a", "b"}  NK = 2  MaxCalls = 2  MaxLen = 4
  Locking = TRUE  InPlace = FALSE  Leaky = FALSE  Hasty = FALSE  Floating = FALSE  Failures = {"append", "lost", "cancel", "crash"}  Keys <- MCKeys
  Ops = {"cput", "cdel", "hdr"}
SPECIFICATION Spec
INVARIANTS Serialized NoneBroken OneHeader CacheTrue ReadsTrue WritesTrue CasTrue WalksTrue HeaderTrue Exclusive
PROPERTIES OnlyAppendsCount AppendOnly
CHECK_DEADLOCK FALSE
