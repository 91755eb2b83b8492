SPECIFICATION HSpec
CONSTANTS
  G = {1, 2, 3, 4, 5, 6, 7}
  V <- Crowd
  Founder = 11
  Depth = 6
  Sizes = {9, 12, 16}
INVARIANTS LeafOK
CHECK_DEADLOCK FALSE
