SPECIFICATION Spec
CONSTANTS MaxLines = 2
          MaxRuns = 1
INVARIANTS Sources Listings Counts Verbosity Additive Subset SymbolsShown Pages
CHECK_DEADLOCK FALSE
