SPECIFICATION TraceSpec
CONSTANTS St0 <- CSt0
          Step <- CStep
CONSTRAINT Record
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
