SPECIFICATION Spec
CONSTANTS
  Money = 10
  MaxTime = 75
  Steps = {30, 45}
  Gbs = {1, 3}
  Auto = TRUE
INVARIANTS Activity OneRenewal OneIm Coins NotLonger Limits
PROPERTY Pays1
CHECK_DEADLOCK FALSE
