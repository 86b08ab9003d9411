SPECIFICATION Spec
CONSTANTS MaxN = 6
 EmitShapes = FALSE
INVARIANTS SameItems Pending Distinct Emit
CHECK_DEADLOCK FALSE
