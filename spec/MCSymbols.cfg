SPECIFICATION Spec
CONSTANTS MaxCards = 3
INVARIANTS Accounted WellFormed OnlyEquals Queries
PROPERTIES FirstStays OneStep
CHECK_DEADLOCK FALSE
