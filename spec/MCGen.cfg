SPECIFICATION Spec
CONSTANTS Accs = {"a","b"}
  Month = 3
  CompIn = 2
  BanIn = 2
  MaxTime = 10
  MaxD = 2
  Jumps = {1,4}
CONSTRAINT Paying
INVARIANT Carried
CHECK_DEADLOCK FALSE
