SPECIFICATION Spec
CONSTANT Lats <- QuickLats
INVARIANTS Conserving Hermitian SignRuleOnlyFlips Marshall Emit
