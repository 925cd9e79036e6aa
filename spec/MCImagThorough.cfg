SPECIFICATION Spec
CONSTANTS
 MaxActs = 4
 Taus = {1, 2, 3}
 Ops = {1, 2, 3}
INVARIANTS LocalForm Commute Two Stationary Linear Emit
PROPERTY Own
CHECK_DEADLOCK FALSE
