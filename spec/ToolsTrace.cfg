SPECIFICATION TraceSpec
CONSTANTS St0 <- TSt0
          Step <- TStep
CONSTRAINT Record
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
