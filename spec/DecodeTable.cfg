SPECIFICATION Spec
INVARIANT LowBits
INVARIANT Known
INVARIANT OneEncoding
CHECK_DEADLOCK FALSE
