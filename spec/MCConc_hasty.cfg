CONSTANTS MaxKeys = 2  Clients = {"a", "b"}  NK = 2  MaxCalls = 2  MaxLen = 5
  Locking = TRUE  InPlace = FALSE  Leaky = FALSE  Hasty = TRUE  Floating = FALSE  Failures = {}  Keys <- MCKeys
  Ops = {"put", "cput", "cdel"}
SPECIFICATION Spec
INVARIANTS CasTrue
CHECK_DEADLOCK FALSE
