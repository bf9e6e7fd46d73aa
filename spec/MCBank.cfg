SPECIFICATION Spec
CONSTANTS
  Users = {"u", "v"}
  MaxAmt = 3
  MaxMinted = 1
  Deep = FALSE
INVARIANTS Nonneg Conservation Evenly FrozenIsPending
PROPERTIES PoolsEmptied SupplyMonotone
CHECK_DEADLOCK FALSE
