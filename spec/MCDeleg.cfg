SPECIFICATION Spec
CONSTANTS
  Users = {"u"}
  Units = 2
  MaxTime = 9
  Dust = 0
  Extra = FALSE
  Revs = 2
INVARIANTS Nonneg FrozenIsPending PaidForEveryStretch NextExactlyIfDelegated Balance OnceEach
CHECK_DEADLOCK FALSE
