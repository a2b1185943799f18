SPECIFICATION Spec
CONSTANTS BankSize = 2
          Digits = 1
          Kinds = {"bank", "module"}
          Words = {"0", "1", "7"}
VIEW View
INVARIANTS TypeOK Isolation SliceReads
CHECK_DEADLOCK FALSE
