SPECIFICATION Spec
CONSTANTS MaxCalls = 2  MaxHints = 2
INVARIANTS CallsAreTheTapes AllCallsWhenHalted EventsWhenHalted CommittedWhenHalted ReadInOrder CanFollow
CHECK_DEADLOCK FALSE
