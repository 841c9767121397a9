SPECIFICATION Spec
CONSTANTS
  Addrs = {1, 2, 3}
  Sizes <- SizesDef
INVARIANTS Complete NothingHeld
CHECK_DEADLOCK FALSE
