SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Roots = {"r"}
  Others = {"x", "y", "z"}
  MaxTime = 4
  Month = 1
  MaxCoins = 1
  Moves = TRUE
  Wallet = {"x", "z"}
INVARIANTS IsForest Linked Aggregates ActiveStays NeverBoth Deadlines
PROPERTIES Links
CHECK_DEADLOCK FALSE
