SPECIFICATION Spec
CONSTANTS Slots = 2
          MaxClk = 7
CONSTRAINT Bound
INVARIANTS ZeroRegister TypeOK NeverStuck RoWins
PROPERTIES CodeFrozen ReadOnlyFrozen ClockTicks HaltIsFinal MemOnlyGrows TapesOnlyAdvance OneTapeAtATime OnlyStoresWrite AtMostOneRegister
CHECK_DEADLOCK FALSE
