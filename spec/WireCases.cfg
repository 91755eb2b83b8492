SPECIFICATION Spec
CONSTANTS
  Part = "kp"
  Rate = 5
  Salt = 1
  Chunk = 200
  Mod = 1
  Res = 0
CHECK_DEADLOCK FALSE
