CONSTANTS MaxKeys = 2  Clients = {"a", "b"}  NK = 2  MaxCalls = 2  MaxLen = 5
  Locking = TRUE  InPlace = FALSE  Leaky = FALSE  Hasty = FALSE  Floating = FALSE  Failures = {}  Keys <- MCKeys
  Ops = {"put", "cput", "cdel", "hdr"}
SPECIFICATION Spec
INVARIANTS Serialized NoneBroken OneHeader CacheTrue ReadsTrue WritesTrue CasTrue WalksTrue HeaderTrue Exclusive
PROPERTIES OnlyAppendsCount AppendOnly
CHECK_DEADLOCK FALSE
