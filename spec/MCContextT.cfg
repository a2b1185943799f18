SPECIFICATION Spec
CONSTANTS Recs = {1, 2}
          Values = {"a", "b"}
          Touched = {"loc", "coloc", "errors", "code"}
          MaxOps = 6
INVARIANTS TypeOK Fixed RoundTrip ResetAgain LoadThenSave CharsetLaws
PROPERTIES Frame RecordsKept
CHECK_DEADLOCK FALSE
