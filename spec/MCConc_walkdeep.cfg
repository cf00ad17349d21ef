CONSTANTS MaxKeys = 2  Clients = {a, b}  a = a  b = b  NK = 3  MaxCalls = 3  MaxLen = 5
  Locking = TRUE  InPlace = FALSE  Leaky = FALSE  Hasty = FALSE  Floating = FALSE  Failures = {"cancel", "append", "evict"}  Keys <- MCKeys
  Ops = {"put", "del", "walk"}
SYMMETRY Sym
SPECIFICATION Spec
INVARIANTS Serialized NoneBroken OneHeader CacheTrue ReadsTrue WritesTrue CasTrue WalksTrue HeaderTrue Exclusive
PROPERTIES OnlyAppendsCount AppendOnly
CHECK_DEADLOCK FALSE
