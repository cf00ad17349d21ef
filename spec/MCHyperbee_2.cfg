CONSTANTS MaxKeys = 2  NKeys_ = 11  NULL = NULL
  Keys <- MCKeys  Vals <- MCVals
SPECIFICATION Spec
VIEW Shape
INVARIANTS TreeOk Contents ViewsAgree Answers HeaderOnce NewBlocksOnly NoGarbage
PROPERTIES AppendOnly OneBlock NoopsWriteNothing
CHECK_DEADLOCK FALSE
