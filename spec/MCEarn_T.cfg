SPECIFICATION Spec
CONSTANTS Accs = {a, b}
 MaxTime = 3
 Day = 2
 MaxList = 2
INVARIANTS Right NoGhosts
PROPERTY ForgetIsAllowed
CHECK_DEADLOCK FALSE
