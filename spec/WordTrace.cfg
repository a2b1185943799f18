SPECIFICATION TraceSpec
CONSTANTS St0 <- WSt0
          Step <- WStep
          G = 12
CONSTRAINT Record
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
