SPECIFICATION Spec
CONSTANTS
  None = None
  Bits = 2
  Objects = {o1, o2}
INVARIANTS RootSpeaks AllSpeak Sparse OrderOfRequests
CHECK_DEADLOCK FALSE
