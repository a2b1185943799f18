SPECIFICATION Spec
CONSTANTS MaxCards = 4
INVARIANTS Accounted WellFormed OnlyEquals Queries
PROPERTIES FirstStays OneStep
CHECK_DEADLOCK FALSE
