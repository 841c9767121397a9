SPECIFICATION Spec
CONSTANTS
  N = 1
  Goal = "acc"
INVARIANTS LeafRight BranchRight MatchRight MatchStrict MergeRight
CHECK_DEADLOCK FALSE
