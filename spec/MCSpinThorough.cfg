SPECIFICATION Spec
CONSTANT Lats <- ThoroughLats
INVARIANTS Conserving Hermitian SignRuleOnlyFlips Marshall Emit
