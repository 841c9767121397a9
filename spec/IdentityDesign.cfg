SPECIFICATION Spec
CONSTANTS
  Addresses = {0, 1, 2}
  Instructions = {"a", "b"}
  Values = {0, 1}
  PadCode = "last"
INVARIANTS ReadBack NothingElse Committed
CHECK_DEADLOCK FALSE
