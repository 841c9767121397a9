SPECIFICATION Spec
CONSTANTS MaxCalls = 3  MaxHints = 3
INVARIANTS CallsAreTheTapes AllCallsWhenHalted EventsWhenHalted CommittedWhenHalted ReadInOrder CanFollow
CHECK_DEADLOCK FALSE
