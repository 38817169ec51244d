SPECIFICATION GenSpec
CONSTANTS FileName <- GenFile
          Program <- GenProgram
VIEW GenView
INVARIANTS Promises Tell
