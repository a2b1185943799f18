SPECIFICATION Spec
CONSTANTS MaxLen = 5
          MaxCol = 5
INVARIANTS Tiling NoNewline StripOk RecordOk SplitOk InstrOk
PROPERTY Stable
CHECK_DEADLOCK FALSE
