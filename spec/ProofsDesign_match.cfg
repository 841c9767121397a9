SPECIFICATION Spec
CONSTANTS
  N = 2
  Goal = "match"
INVARIANTS LeafRight BranchRight MatchRight MatchStrict MergeRight
CHECK_DEADLOCK FALSE
