CONSTANTS MaxKeys = 2  Clients = {"a", "b"}  NK = 2  MaxCalls = 2  MaxLen = 5
  Locking = FALSE  InPlace = FALSE  Leaky = FALSE  Hasty = FALSE  Floating = FALSE  Failures = {}  Keys <- MCKeys
  Ops = {"get", "put", "del"}
SPECIFICATION Spec
INVARIANTS Serialized NoneBroken OneHeader
CHECK_DEADLOCK FALSE
