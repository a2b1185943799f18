SPECIFICATION Spec
CONSTANTS Names = {"A","B"}
          MaxOps = 4
          MaxPasses = 2
INVARIANTS NoDup UndefsKnown NothingLost ResolveMeaning
PROPERTIES Resolves Monotone
CHECK_DEADLOCK FALSE
