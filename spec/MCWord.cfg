SPECIFICATION Spec
CONSTANT G = 2
INVARIANTS Partition OneGroup Rebuild
CHECK_DEADLOCK FALSE
