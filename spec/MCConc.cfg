CONSTANTS MaxKeys = 2  Clients = {"a", "b"}  NK = 3  MaxCalls = 2  MaxLen = 5
  Locking = TRUE  InPlace = FALSE  Leaky = FALSE  Hasty = FALSE  Floating = FALSE  Failures = {}  Keys <- MCKeys
  Ops = {"get", "put", "del"}
SPECIFICATION Spec
INVARIANTS Serialized NoneBroken OneHeader CacheTrue ReadsTrue WritesTrue Exclusive
PROPERTIES OnlyAppendsCount AppendOnly
CHECK_DEADLOCK FALSE
