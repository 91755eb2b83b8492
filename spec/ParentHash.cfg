SPECIFICATION Spec
CONSTANTS
  N = 4
  Rate = 1
  Salt = 1
  Steps = 0
  Twice = 1
INVARIANTS HonestOK
CHECK_DEADLOCK FALSE
