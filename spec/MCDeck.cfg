SPECIFICATION Spec
CONSTANTS NFiles = 2
          MaxLines = 2
INVARIANTS Meaning NoDirectives Origin DepthOk
PROPERTY Terminates
CHECK_DEADLOCK FALSE
