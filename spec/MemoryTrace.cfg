SPECIFICATION TraceSpec
CONSTANTS St0 <- MSt0
          Step <- MStep
          BankSize = 2048
          Digits = 16
CONSTRAINT Record
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
