SPECIFICATION Spec
INVARIANTS AncestorsFirst Complete NoCycleTaken Emit
CHECK_DEADLOCK FALSE
CONSTANT N = 4
