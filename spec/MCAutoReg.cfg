SPECIFICATION Spec
CONSTANT Models <- QuickModels
INVARIANTS NeverStuck EndsInSector Cond MassOne Interval Emit
