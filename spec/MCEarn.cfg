SPECIFICATION Spec
CONSTANTS Accs = {a, b}
 MaxTime = 2
 Day = 1
 MaxList = 2
INVARIANTS Right NoGhosts
PROPERTY ForgetIsAllowed
CHECK_DEADLOCK FALSE
