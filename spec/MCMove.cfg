SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Roots = {"r", "s"}
  Others = {"x", "y"}
  MaxTime = 2
  Month = 1
  MaxCoins = 1
  Moves = TRUE
  Wallet = {"x"}
INVARIANTS IsForest Linked Aggregates ActiveStays NeverBoth Deadlines
PROPERTIES Links
CHECK_DEADLOCK FALSE
