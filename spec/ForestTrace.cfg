SPECIFICATION Spec
CONSTANT Files <- FilesDef
VIEW View
INVARIANTS Shape Finished
CHECK_DEADLOCK FALSE
