SPECIFICATION Spec
CONSTANTS
  Users = {"u", "v"}
  Units = 2
  MaxTime = 5
  Dust = 60
  Extra = FALSE
  Revs = 1
INVARIANTS Nonneg FrozenIsPending PaidForEveryStretch NextExactlyIfDelegated Balance OnceEach
CHECK_DEADLOCK FALSE
