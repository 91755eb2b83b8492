SPECIFICATION NestSpec
CONSTANTS
  G = {1, 2, 4}
  V = {11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
  Founder = 11
  Salt = 1
  Rate = 6
  Chunk = 25
  Two = TRUE
  Part = "holes"
  Sites = 60
INVARIANTS LeafOK
CHECK_DEADLOCK FALSE
