SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 4}
  V = {11, 12, 13, 14, 15, 16}
  Founder = 11
  Salt = 1
  Rate = 1
  Chunk = 40
  Two = FALSE
INVARIANTS LeafOK
CHECK_DEADLOCK FALSE
