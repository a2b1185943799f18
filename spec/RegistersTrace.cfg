SPECIFICATION TraceSpec
CONSTANTS St0 <- RSt0
          Step <- RStep
          NGroups = 8
          NRegs = 32
          WidthsC = {16, 24}
CONSTRAINT Record
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
