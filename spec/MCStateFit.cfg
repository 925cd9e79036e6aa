SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 MaxW = 2
INVARIANTS NoRepeat Positive Total Uniform Monotone Never Shares Slope Descent Emit
