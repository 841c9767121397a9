SPECIFICATION Spec
INVARIANTS TypeOK NothingElse CodeIsCopy Precedence OrderFree
PROPERTY Finishes
CHECK_DEADLOCK FALSE
