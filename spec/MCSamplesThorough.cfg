SPECIFICATION Spec
CONSTANT Runs <- ThoroughRuns
CONSTANT MaxBatches = 4
INVARIANTS OnceEach AtMost Shares Limit StopsWhy Strata VarForm Emit
