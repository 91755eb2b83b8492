SPECIFICATION Spec
CONSTANTS
  G = {1, 2, 3}
  V = {11, 12, 13, 14, 15, 16, 17}
  Founder = 11
  Depth = 16
  Bursts = {1, 2, 3, 50, 130, 255, 256, 257, 300}
  Handshakes = {1, 2, 20, 130}
  First = 0
INVARIANTS LeafOK
CHECK_DEADLOCK FALSE
