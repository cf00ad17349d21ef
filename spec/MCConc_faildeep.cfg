CONSTANTS MaxKeys = 2  Clients = {a, b}  a = a  b = b  NK = 2  MaxCalls = 3  MaxLen = 5
  Locking = TRUE  InPlace = FALSE  Leaky = FALSE  Hasty = FALSE  Floating = FALSE  Failures = {"get", "append", "lost", "cancel", "crash"}  Keys <- MCKeys
  Ops = {"get", "put", "del"}
SYMMETRY Sym
SPECIFICATION Spec
INVARIANTS Serialized NoneBroken OneHeader CacheTrue ReadsTrue WritesTrue Exclusive
PROPERTIES OnlyAppendsCount AppendOnly
CHECK_DEADLOCK FALSE
