SPECIFICATION Spec
CONSTANTS
 MaxN = 5
 MaxW = 2
INVARIANTS NoRepeat Positive Total Uniform Monotone Never Shares Slope Descent Emit
