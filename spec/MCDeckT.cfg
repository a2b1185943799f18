SPECIFICATION Spec
CONSTANTS NFiles = 3
          MaxLines = 2
INVARIANTS Meaning NoDirectives Origin DepthOk
PROPERTY Terminates
CHECK_DEADLOCK FALSE
