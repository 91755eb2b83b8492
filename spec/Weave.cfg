SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 3, 4, 5, 6}
  V = {11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28}
  Founder = 11
  Depth = 60
  MaxLeaves = 12
INVARIANTS LeafOK PrivOK WhyOK LockedOut
CHECK_DEADLOCK FALSE
