SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 3}
  V = {11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
  Founder = 11
  Salt = 1
  Rate = 20
  Chunk = 1
  Two = FALSE
INVARIANTS LeafOK
CHECK_DEADLOCK FALSE
