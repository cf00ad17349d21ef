CONSTANTS MaxKeys = 2  Clients = {"a", "b"}  NK = 2  MaxCalls = 3  MaxLen = 5
  Locking = TRUE  InPlace = TRUE  Leaky = FALSE  Hasty = FALSE  Floating = FALSE  Failures = {"append", "cancel"}  Keys <- MCKeys
  Ops = {"get", "put", "del"}
SPECIFICATION Spec
INVARIANTS Serialized NoneBroken ReadsTrue
CHECK_DEADLOCK FALSE
