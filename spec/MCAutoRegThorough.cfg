SPECIFICATION Spec
CONSTANT Models <- ThoroughModels
INVARIANTS NeverStuck EndsInSector Cond MassOne Interval Emit
