SPECIFICATION TraceSpec
CONSTANTS St0 <- BFSt0
          Step <- BFStep
CONSTRAINT Record
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
