SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxCol = 4
INVARIANTS Tiling NoNewline StripOk RecordOk SplitOk InstrOk
PROPERTY Stable
CHECK_DEADLOCK FALSE
