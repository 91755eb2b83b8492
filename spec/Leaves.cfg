SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 3, 4}
  V = {11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
  Founder = 11
  Salt = 1
  Rate = 40
  Chunk = 25
  Two = TRUE
  Part = "add"
INVARIANTS LeafOK
CHECK_DEADLOCK FALSE
