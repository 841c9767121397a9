SPECIFICATION Spec
CONSTANTS
  N = 2
  Goal = "acc"
INVARIANTS LeafRight BranchRight MatchRight MatchStrict MergeRight
CHECK_DEADLOCK FALSE
