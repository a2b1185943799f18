SPECIFICATION Spec
CONSTANTS Recs = {1, 2}
          Values = {"a"}
          Touched = {"loc", "coloc", "errors"}
          MaxOps = 5
INVARIANTS TypeOK Fixed RoundTrip ResetAgain LoadThenSave CharsetLaws
PROPERTIES Frame RecordsKept
CHECK_DEADLOCK FALSE
