SPECIFICATION Spec
CONSTANT MaxW = 3
INVARIANTS TypeOK Geometry ReadBack RangeIsItsBits ValueInRange QueryPure
POSTCONDITION Export
CHECK_DEADLOCK FALSE
