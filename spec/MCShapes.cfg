SPECIFICATION Spec
CONSTANTS MaxN = 6
 Families <- Fams
 Every = 29
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
