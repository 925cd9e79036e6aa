SPECIFICATION Spec
CONSTANT Runs <- QuickRuns
CONSTANT MaxBatches = 3
INVARIANTS OnceEach AtMost Shares Limit StopsWhy Strata VarForm Emit
