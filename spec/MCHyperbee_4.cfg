CONSTANTS MaxKeys = 4  NKeys_ = 12  NULL = NULL
  Keys <- MCKeys  Vals <- MCVals
SPECIFICATION Spec
VIEW Shape
INVARIANTS TreeOk Contents ViewsAgree Answers HeaderOnce NewBlocksOnly NoGarbage
PROPERTIES AppendOnly OneBlock NoopsWriteNothing
CHECK_DEADLOCK FALSE
