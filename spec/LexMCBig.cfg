SPECIFICATION Spec
CONSTANTS MaxTokens = 3
          MaxFill = 1
          Fillers <- Many
INVARIANTS Exact Located PosOK
PROPERTY Progress
CHECK_DEADLOCK FALSE
