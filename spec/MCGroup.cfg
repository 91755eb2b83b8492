SPECIFICATION MCSpec
CONSTANTS
  G = {1, 2, 3}
  V = {11, 12}
  Founder = 1
  MaxCommits = 3
  MaxProps = 1
  MaxList = 1
  MaxTree = 4
VIEW view
CONSTRAINT TreeBound
INVARIANTS TypeOK TreesOK LeafOK PrivOK Processable LockedOut Covered WhyOK
CHECK_DEADLOCK FALSE
