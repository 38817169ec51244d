SPECIFICATION TraceSpec
CONSTANTS FileName <- ObsFile
          Program <- ObsProgram
VIEW TraceView
INVARIANTS Judge
