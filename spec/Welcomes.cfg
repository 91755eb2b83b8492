SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 4}
  V = {11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
  Founder = 11
  Salt = 1
  Rate = 60
  Chunk = 25
  Two = TRUE
  Part = "pair"
INVARIANTS LeafOK ModelOK
CHECK_DEADLOCK FALSE
