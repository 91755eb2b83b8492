SPECIFICATION NestSpec
CONSTANTS
  G = {1, 2}
  V = {11, 12, 13, 14, 15, 16}
  Founder = 11
  Salt = 1
  Rate = 3
  Chunk = 40
  Two = TRUE
  Part = "prop"
  Sites = 70
INVARIANTS LeafOK
CHECK_DEADLOCK FALSE
