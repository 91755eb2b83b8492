SPECIFICATION MSpec
CONSTANTS
  G = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  V = {11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
  Founder = 11
  MaxLeaf = 99
  MaxProps = 99
  MaxDepth = 99
  MaxAdds = 1
  Salt = 1
  Rate = 40
  Sizes = {5, 6, 7, 8, 9}
  Fills = {"bare", "path", "full", "late"}
  Seats = {"odd", "even", "high"}
INVARIANTS LeafOK
CHECK_DEADLOCK FALSE
