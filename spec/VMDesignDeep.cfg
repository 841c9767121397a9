SPECIFICATION Spec
CONSTANTS Slots = 3
          MaxClk = 9
CONSTRAINT Bound
INVARIANTS ZeroRegister TypeOK NeverStuck RoWins
PROPERTIES CodeFrozen ReadOnlyFrozen ClockTicks HaltIsFinal MemOnlyGrows TapesOnlyAdvance OneTapeAtATime OnlyStoresWrite AtMostOneRegister
CHECK_DEADLOCK FALSE
