SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 3, 4, 5, 6, 7}
  V <- Crowd
  Founder = 11
  Depth = 14
  Sizes = {17, 20, 33, 40, 64, 65}
INVARIANTS LeafOK
CHECK_DEADLOCK FALSE
