SPECIFICATION Spec
CONSTANT G = 3
INVARIANTS Partition OneGroup Rebuild
CHECK_DEADLOCK FALSE
