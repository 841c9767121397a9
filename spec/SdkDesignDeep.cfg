SPECIFICATION Spec
CONSTANTS Ids = {"A", "B"}
Null = "null"
Args = {"a"}
Rets <- RetSet
Events <- EventSet
Chunks <- ChunkSet
Kinds <- KindSet
MaxCalls = 2
MaxEvents = 2
MaxStack = 2
CONSTRAINT Bound
INVARIANTS NoOwnerlessRecord WellNested CanonicalOk
PROPERTIES TapeAppendOnly Attribution EventsAppendOnly CallerInCharge
CHECK_DEADLOCK FALSE
