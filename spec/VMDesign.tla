------------------------------ MODULE VMDesign ------------------------------
(***************************************************************************)
(* Exhaustive small configuration of VM: every program of SLOTS            *)
(* instructions drawn from a catalogue that contains at least one member   *)
(* of each instruction class (including read-only stores, wrap-around      *)
(* addresses, self-overwriting of the data copy, all tape kinds), from     *)
(* every initial register choice of a small set.                           *)
(***************************************************************************)
EXTENDS Word, TLC
CONSTANTS Slots, MaxClk

VARIABLES code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted
HashModel(inp) == [i \in 1..32 |-> (Len(inp) + inp[1] + i) % 256]
M == INSTANCE VM WITH Hash <- HashModel
vars == <<code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted>>

I(op, rd, rs1, rs2, imm) == [op |-> op, rd |-> rd, rs1 |-> rs1, rs2 |-> rs2, imm |-> imm]
Catalogue == {
  I("ADD", 10, 0, 0, W0), I("ADD", 10, 0, 0, WNat(2)), I("ADD", 10, 0, 0, WNat(7)), I("ADD", 10, 0, 0, WNat(3)),
  I("ADD", 10, 0, 0, W1), I("ECALL", 0, 10, 11, W0), I("ADD", 0, 1, 2, W1), I("SUB", 1, 1, 2, W0),
  I("DIV", 1, 1, 2, W0), I("SB", 0, 2, 1, W0), I("SW", 0, 2, 1, <<253, 255, 255, 255>>), I("LH", 2, 0, 1, W1),
  I("BLT", 0, 1, 2, W0), I("JALR", 2, 0, 0, WNat(4)), I("ADD", 12, 0, 0, WNat(8)) }
Tapes0 == [t \in M!StreamTapes \cup M!FixedTapes |->
             [data |-> IF t \in M!FixedTapes THEN [i \in 1..32 |-> i] ELSE <<7, 8, 9>>, pos |-> 0]]
Regs0(a, b) == [i \in 1..32 |-> IF i = 2 THEN a ELSE IF i = 3 THEN b
                                ELSE IF i = 12 THEN WNat(256) ELSE IF i = 13 THEN WNat(2)
                                ELSE IF i = 14 THEN WNat(250) ELSE W0]
RwImg == (WNat(256) :> 1) @@ (WNat(257) :> 2) @@ (WNat(0) :> 3)
RoImg == (WNat(257) :> 99) @@ (WNat(4) :> 19)
Init == \E prog \in [1..Slots -> Catalogue], a \in {WNat(256), WNat(1), WMinS}, b \in {W0, WOnes} :
   M!Boot([p \in {WNat(4 * (k - 1)) : k \in 1..Slots} |-> prog[(p[1] \div 4) + 1]], W0, Regs0(a, b), RwImg, RoImg, Tapes0)
Next == M!Next
Spec == Init /\ [][Next]_vars
Bound == clk < MaxClk
ZeroRegister == M!ZeroRegister
TypeOK == M!TypeOK
NeverStuck == M!NeverStuck
CodeFrozen == M!CodeFrozen
ReadOnlyFrozen == M!ReadOnlyFrozen
ClockTicks == M!ClockTicks
HaltIsFinal == M!HaltIsFinal
MemOnlyGrows == M!MemOnlyGrows
TapesOnlyAdvance == M!TapesOnlyAdvance
OneTapeAtATime == M!OneTapeAtATime
OnlyStoresWrite == M!OnlyStoresWrite
AtMostOneRegister == M!AtMostOneRegister
RoWins == mem[WNat(257)] = 99 /\ mem[WNat(4)] = 19
=============================================================================
