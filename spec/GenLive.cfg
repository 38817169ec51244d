SPECIFICATION FairSpec
CONSTANTS FileName <- GenFile
          Program <- GenProgram
INVARIANTS Promises Progress
PROPERTY Terminates
