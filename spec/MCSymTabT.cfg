SPECIFICATION Spec
CONSTANTS Names = {"A","B","C"}
          MaxOps = 5
          MaxPasses = 2
INVARIANTS NoDup UndefsKnown NothingLost ResolveMeaning
PROPERTIES Resolves Monotone
CHECK_DEADLOCK FALSE
