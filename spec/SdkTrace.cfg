SPECIFICATION Spec
INVARIANT NoOwnerlessRecord
POSTCONDITION Done
CHECK_DEADLOCK FALSE
