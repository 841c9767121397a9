SPECIFICATION Spec
INVARIANTS Sound NoConstraintSkipped
CHECK_DEADLOCK FALSE
