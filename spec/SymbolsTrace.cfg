SPECIFICATION TraceSpec
CONSTANTS St0 <- SSt0
          Step <- SStep
CONSTRAINT Record
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
