SPECIFICATION RSpec
CONSTANTS
  G = {1, 2, 3}
  V = {11, 12}
  Founder = 1
  MaxCommits = 3
  MaxProps = 1
  MaxList = 1
  MaxTree = 4
  Rate = 300
  Salt = 1
VIEW view
CONSTRAINT TreeBound
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK TreesOK LeafOK PrivOK Processable LockedOut Covered WhyOK
CHECK_DEADLOCK FALSE
