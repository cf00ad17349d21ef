CONSTANTS MaxKeys = 2  Clients = {"a", "b"}  NK = 3  MaxCalls = 2  MaxLen = 5
  Locking = TRUE  InPlace = FALSE  Leaky = FALSE  Hasty = FALSE  Floating = TRUE  Failures = {}  Keys <- MCKeys
  Ops = {"put", "del", "walk"}
SPECIFICATION Spec
INVARIANTS WalksTrue
CHECK_DEADLOCK FALSE
