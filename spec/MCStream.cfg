SPECIFICATION Spec
CONSTANTS
  MaxArchive = 4
  MaxTail = 3
  Ahead = 3
INVARIANT Sound
CHECK_DEADLOCK FALSE
