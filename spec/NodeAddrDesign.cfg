SPECIFICATION Spec
CONSTANT W = 3
INVARIANTS Antisymmetric LeastAbove MergeIsUnion
CHECK_DEADLOCK FALSE
