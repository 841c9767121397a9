SPECIFICATION Spec
CONSTANTS
  N = 2
  Goal = "merge"
INVARIANTS LeafRight BranchRight MatchRight MatchStrict MergeRight
CHECK_DEADLOCK FALSE
