SPECIFICATION Spec
CONSTANTS
 Look = TRUE
 Passing = TRUE
INVARIANT Genuine
CHECK_DEADLOCK FALSE
