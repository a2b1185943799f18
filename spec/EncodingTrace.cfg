SPECIFICATION TraceSpec
CONSTANTS St0 <- ESt0
          Step <- EStep
CONSTRAINT Record
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
