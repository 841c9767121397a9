SPECIFICATION Spec
CONSTANTS Bits = 3
MaxLeaves = 5
INVARIANTS ShiftsAgree StepsAgree SortIsSorted OrderFree
CHECK_DEADLOCK FALSE
