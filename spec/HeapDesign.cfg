SPECIFICATION Spec
CONSTANTS
  Size = 12
  End = 3
  Slots = {1, 2, 3}
  Sizes = {1, 2, 5}
  Aligns = {1, 2, 4}
  Checked = TRUE
INVARIANTS Disjoint OffImage Within
PROPERTIES Allowed Generous
CHECK_DEADLOCK FALSE
