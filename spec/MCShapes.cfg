SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  V = {11, 12, 13, 14, 15, 16, 17, 18}
  Founder = 11
  MaxLeaf = 4
  MaxProps = 2
  MaxAdds = 2
  MaxDepth = 6
  Salt = 1
  Rate = 10
VIEW shapes
INVARIANTS Good
CHECK_DEADLOCK FALSE
