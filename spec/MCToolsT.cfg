SPECIFICATION Spec
CONSTANTS MaxLines = 3
          MaxRuns = 2
INVARIANTS Sources Listings Counts Verbosity Additive Subset SymbolsShown Pages
CHECK_DEADLOCK FALSE
