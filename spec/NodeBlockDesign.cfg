SPECIFICATION Spec
CONSTANTS
  Addrs = {1, 2}
  Programs = {1, 2}
  Data = {0, 1}
  MaxEvents = 3
  MaxHeight = 2
INVARIANTS Untouched OwnerWrites BothAgree NeverDirect StampsTrue ReadsTrue Determined
CHECK_DEADLOCK FALSE
