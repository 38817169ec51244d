SPECIFICATION Spec
CONSTANTS MaxTokens = 3
          MaxFill = 1
          Fillers <- Few
INVARIANTS Exact Located PosOK
PROPERTY Progress
CHECK_DEADLOCK FALSE
