SPECIFICATION TraceSpec
CONSTANTS St0 <- DSt0
          Step <- DStep
CONSTRAINT Record
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
