SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 3, 4, 5}
  V = {11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28}
  Founder = 11
  Salt = 1
  Rate = 1
  Chunk = 1
  Two = FALSE
  Depth = 14
INVARIANTS LeafOK AgreeOK
CHECK_DEADLOCK FALSE
