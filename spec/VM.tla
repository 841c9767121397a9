--------------------------------- MODULE VM ---------------------------------
(***************************************************************************)
(* The mozak virtual machine: a modified-Harvard RV32IM machine with       *)
(* environment calls.  One action per class of instruction.  The program   *)
(* text `code` is a map from word-aligned addresses to decoded             *)
(* instructions that no action changes; `mem` is the separate data memory  *)
(* (absent addresses read as zero); `ro` the read-only addresses; `tapes`  *)
(* the seven input devices; `aux` what the execution record reports about  *)
(* the last instruction.                                                   *)
(***************************************************************************)
EXTENDS Word, FiniteSets, TLC

CONSTANT Hash(_)          \* digest (32 bytes) of a byte sequence: uninterpreted here

VARIABLES code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted
vars == <<code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted>>

StreamTapes == {"private", "public", "call", "event"}
FixedTapes  == {"events_commitment", "cast_list_commitment", "self_prog_id"}

(* ecall numbers                                                            *)
ReadTape(n) == CASE n = 2 -> "private" [] n = 4 -> "public" [] n = 5 -> "call" [] n = 6 -> "event"
                 [] n = 7 -> "events_commitment" [] n = 8 -> "cast_list_commitment"
                 [] n = 9 -> "self_prog_id" [] OTHER -> "none"

Reg(i) == regs[i + 1]
SetReg(i, v) == IF i = 0 THEN regs ELSE [regs EXCEPT ![i + 1] = v]
Peek(a) == IF a \in DOMAIN mem THEN mem[a] ELSE 0
(* addresses a, a+1, ..., a+n-1, wrapping at 2^32                            *)
Addrs(a, n) == [i \in 1..n |-> WAddN(a, i - 1)]
(* bs written from address a on                                             *)
MemWrite(a, bs) ==
  LET as == Addrs(a, Len(bs))
      at == {as[i] : i \in DOMAIN as}
      idx(x) == WToNat(WSub(x, a)) + 1
  IN [x \in DOMAIN mem \cup at |-> IF x \in at THEN bs[idx(x)] ELSE mem[x]]
Writable(a, n) == \A i \in 1..n : WAddN(a, i - 1) \notin ro

AluOps == {"ADD","SUB","XOR","OR","AND","SLL","SRL","SRA","SLT","SLTU",
           "MUL","MULH","MULHU","MULHSU","DIV","DIVU","REM","REMU"}
ShiftOps == {"SLL", "SRL", "SRA"}
LoadOps == {"LB","LH","LW","LBU","LHU"}
StoreOps == {"SB","SH","SW"}
BranchOps == {"BEQ","BNE","BLT","BGE","BLTU","BGEU"}

Alu(op, a, b) ==
  CASE op = "ADD" -> WAdd(a, b)          [] op = "SUB" -> WSub(a, b)
    [] op = "XOR" -> WXor(a, b)          [] op = "OR"  -> WOr(a, b)
    [] op = "AND" -> WAnd(a, b)          [] op = "SLL" -> WShl(a, WLow5(b))
    [] op = "SRL" -> WShrL(a, WLow5(b))  [] op = "SRA" -> WShrA(a, WLow5(b))
    [] op = "SLT" -> WBool(WLtS(a, b))   [] op = "SLTU" -> WBool(WLtU(a, b))
    [] op = "MUL" -> WMulLo(a, b)        [] op = "MULH" -> WMulHiSS(a, b)
    [] op = "MULHU" -> WMulHiUU(a, b)    [] op = "MULHSU" -> WMulHiSU(a, b)
    [] op = "DIV" -> WDivS(a, b)         [] op = "DIVU" -> WDivU(a, b)
    [] op = "REM" -> WRemS(a, b)         [] op = "REMU" -> WRemU(a, b)
Taken(op, a, b) ==
  CASE op = "BEQ" -> a = b [] op = "BNE" -> a # b
    [] op = "BLT" -> WLtS(a, b) [] op = "BGE" -> ~WLtS(a, b)
    [] op = "BLTU" -> WLtU(a, b) [] op = "BGEU" -> ~WLtU(a, b)
Width(op) == CASE op \in {"LB", "LBU", "SB"} -> 1 [] op \in {"LH", "LHU", "SH"} -> 2 [] OTHER -> 4

HasIns == pc \in DOMAIN code /\ code[pc].op # "ERROR"
Cur == code[pc]
Running == ~halted /\ ~aborted
Op1 == Reg(Cur.rs1)
Op2Raw == Reg(Cur.rs2)
Op2Sum == WAdd(Op2Raw, Cur.imm)
PcPlus4 == WAddN(pc, 4)

(* what the record says about operands, for every instruction               *)
AuxBase == [dst |-> W0, new_pc |-> pc, mem |-> <<>>, used |-> <<>>, halt |-> FALSE,
            op1 |-> Op1, op2_raw |-> Op2Raw,
            op2 |-> IF Cur.op \in BranchOps THEN Op2Raw
                    ELSE IF Cur.op \in ShiftOps THEN WPow2(WLow5(Op2Sum)) ELSE Op2Sum,
            hash |-> <<>>, dev |-> <<>>]

Tick == clk' = clk + 1 /\ UNCHANGED <<code, ro, aborted>>

DoAlu ==
  /\ Running /\ HasIns /\ Cur.op \in AluOps
  /\ LET r == Alu(Cur.op, Op1, Op2Sum) IN
       /\ regs' = SetReg(Cur.rd, r)
       /\ aux' = [AuxBase EXCEPT !.dst = r, !.new_pc = PcPlus4]
  /\ pc' = PcPlus4
  /\ Tick /\ UNCHANGED <<mem, tapes, halted>>

DoBranch ==
  /\ Running /\ HasIns /\ Cur.op \in BranchOps
  /\ pc' = IF Taken(Cur.op, Op1, Op2Raw) THEN Cur.imm ELSE PcPlus4
  /\ aux' = [AuxBase EXCEPT !.new_pc = pc']
  /\ Tick /\ UNCHANGED <<regs, mem, tapes, halted>>

DoJump ==
  /\ Running /\ HasIns /\ Cur.op = "JALR"
  /\ pc' = WClearBit0(WAdd(Op1, Cur.imm))
  /\ regs' = SetReg(Cur.rd, PcPlus4)
  /\ aux' = [AuxBase EXCEPT !.dst = PcPlus4, !.new_pc = pc']
  /\ Tick /\ UNCHANGED <<mem, tapes, halted>>

DoLoad ==
  /\ Running /\ HasIns /\ Cur.op \in LoadOps
  /\ LET b(i) == Peek(WAddN(Op2Sum, i))
         raw == CASE Width(Cur.op) = 1 -> <<b(0), 0, 0, 0>>
                  [] Width(Cur.op) = 2 -> <<b(0), b(1), 0, 0>>
                  [] OTHER -> <<b(0), b(1), b(2), b(3)>>
         v == CASE Cur.op = "LB" -> WSext8(b(0)) [] Cur.op = "LH" -> WSext16(b(0), b(1)) [] OTHER -> raw
     IN /\ regs' = SetReg(Cur.rd, v)
        /\ aux' = [AuxBase EXCEPT !.dst = v, !.new_pc = PcPlus4,
                     !.mem = <<[addr |-> Op2Sum, raw |-> raw]>>, !.used = Addrs(Op2Sum, Width(Cur.op))]
  /\ pc' = PcPlus4
  /\ Tick /\ UNCHANGED <<mem, tapes, halted>>

DoStore ==
  /\ Running /\ HasIns /\ Cur.op \in StoreOps
  /\ Writable(Op2Sum, Width(Cur.op))
  /\ LET n == Width(Cur.op)
         raw == [i \in 1..4 |-> IF i <= n THEN Op1[i] ELSE 0]
     IN /\ mem' = MemWrite(Op2Sum, SubSeq(raw, 1, n))
        /\ aux' = [AuxBase EXCEPT !.dst = raw, !.new_pc = PcPlus4,
                     !.mem = <<[addr |-> Op2Sum, raw |-> raw]>>, !.used = Addrs(Op2Sum, n)]
  /\ pc' = PcPlus4
  /\ Tick /\ UNCHANGED <<regs, tapes, halted>>

A0 == Reg(10)
A1 == Reg(11)
A2 == Reg(12)
A3 == Reg(13)
IsEcall(S) == Running /\ HasIns /\ Cur.op = "ECALL" /\ A0[2] = 0 /\ A0[3] = 0 /\ A0[4] = 0 /\ A0[1] \in S
KnownEcalls == 0..10

DoHalt ==
  /\ IsEcall({0})
  /\ halted' = TRUE
  /\ aux' = [AuxBase EXCEPT !.halt = TRUE]
  /\ Tick /\ UNCHANGED <<pc, regs, mem, tapes>>

(* bytes the tape hands out for a request of a2 bytes                        *)
Avail(t) == LET left == Len(tapes[t].data) - tapes[t].pos
            IN IF WFitsNat(A2) /\ WToNat(A2) < left THEN WToNat(A2) ELSE left
DoRead(t) ==
  /\ IsEcall({n \in 2..9 : n # 3}) /\ ReadTape(A0[1]) = t
  /\ LET n == Avail(t)
         bs == SubSeq(tapes[t].data, tapes[t].pos + 1, tapes[t].pos + n)
     IN /\ Writable(A1, n)
        /\ mem' = MemWrite(A1, bs)
        /\ tapes' = IF t \in StreamTapes THEN [tapes EXCEPT ![t].pos = @ + n] ELSE tapes
        /\ aux' = [AuxBase EXCEPT !.dst = WNat(n), !.new_pc = PcPlus4, !.used = Addrs(A1, n),
                     !.dev = <<[addr |-> A1, tape |-> t, data |-> bs]>>]
  /\ pc' = PcPlus4
  /\ Tick /\ UNCHANGED <<regs, halted>>

(* the sponge absorbs whole blocks: only lengths that are non-zero multiples *)
(* of 8 are supported                                                        *)
HashLenOk == WFitsNat(A2) /\ WToNat(A2) > 0 /\ WToNat(A2) % 8 = 0
DoHash ==
  /\ IsEcall({3})
  /\ HashLenOk
  /\ LET n == WToNat(A2)
         inp == [i \in 1..n |-> Peek(WAddN(A1, i - 1))]
     IN /\ Writable(A3, 32)
        /\ mem' = MemWrite(A3, Hash(inp))
        /\ aux' = [AuxBase EXCEPT !.new_pc = PcPlus4, !.used = Addrs(A1, n) \o Addrs(A3, 32),
                     !.hash = <<[addr |-> A1, out |-> A3, len |-> A2]>>]
  /\ pc' = PcPlus4
  /\ Tick /\ UNCHANGED <<regs, tapes, halted>>

DoNopEcall ==       \* trace output, and any number that is not an ecall
  /\ Running /\ HasIns /\ Cur.op = "ECALL"
  /\ ~IsEcall(KnownEcalls \ {10})
  /\ aux' = [AuxBase EXCEPT !.new_pc = PcPlus4]
  /\ pc' = PcPlus4
  /\ Tick /\ UNCHANGED <<regs, mem, tapes, halted>>

GuestMessage == [i \in 1..(IF WFitsNat(A2) THEN WToNat(A2) ELSE 0) |-> Peek(WAddN(A1, i - 1))]
Refuse(why) ==
  \/ why = "no-instruction" /\ ~HasIns
  \/ why = "read-only" /\ HasIns /\ Cur.op \in StoreOps /\ ~Writable(Op2Sum, Width(Cur.op))
  \/ why = "read-only" /\ IsEcall({n \in 2..9 : n # 3}) /\ ~Writable(A1, Avail(ReadTape(A0[1])))
  \/ why = "read-only" /\ IsEcall({3}) /\ HashLenOk /\ ~Writable(A3, 32)
  \/ why = "hash-length" /\ IsEcall({3}) /\ ~HashLenOk
  \/ why = "guest-panic" /\ IsEcall({1})
Reasons == {"no-instruction", "read-only", "hash-length", "guest-panic"}
DoAbort ==
  /\ Running
  /\ \E why \in Reasons : Refuse(why)
  /\ aborted' = TRUE
  /\ UNCHANGED <<code, pc, regs, mem, ro, tapes, halted, clk, aux>>

Step == DoAlu \/ DoBranch \/ DoJump \/ DoLoad \/ DoStore \/ DoHalt
        \/ (\E t \in StreamTapes \cup FixedTapes : DoRead(t)) \/ DoHash \/ DoNopEcall
Next == Step \/ DoAbort

Aux0 == [none |-> TRUE]
(* initial memory: read-only contents win where both images define a byte     *)
Boot(c, entry, r, rwImage, roImage, tp) ==
  /\ code = c /\ pc = entry /\ regs = r
  /\ mem = [a \in DOMAIN rwImage \cup DOMAIN roImage |->
              IF a \in DOMAIN roImage THEN roImage[a] ELSE rwImage[a]]
  /\ ro = DOMAIN roImage
  /\ tapes = tp /\ halted = FALSE /\ clk = 2 /\ aux = Aux0 /\ aborted = FALSE

-----------------------------------------------------------------------------
(* Properties (checked exhaustively on small machines by VMDesign, and on    *)
(* every recorded execution by VMTrace)                                      *)
ZeroRegister == regs[1] = W0
TypeOK == /\ \A i \in 1..32 : IsWord(regs[i])
          /\ \A a \in DOMAIN mem : IsWord(a) /\ mem[a] \in Byte
          /\ ro \subseteq DOMAIN mem
          /\ \A t \in DOMAIN tapes : tapes[t].pos \in 0..Len(tapes[t].data)
CodeFrozen == [][code' = code]_vars
ReadOnlyFrozen == [][ro' = ro /\ \A a \in ro : mem'[a] = mem[a]]_vars
ClockTicks == [][clk' = clk + 1 \/ (clk' = clk /\ aborted')]_vars
HaltIsFinal == [][halted => FALSE]_vars
MemOnlyGrows == [][DOMAIN mem \subseteq DOMAIN mem']_vars
TapesOnlyAdvance == [][\A t \in DOMAIN tapes : /\ tapes'[t].data = tapes[t].data
                                                /\ tapes'[t].pos >= tapes[t].pos
                                                /\ (t \in FixedTapes => tapes'[t].pos = tapes[t].pos)]_vars
OneTapeAtATime == [][Cardinality({t \in DOMAIN tapes : tapes'[t] # tapes[t]}) <= 1]_vars
OnlyStoresWrite == [][mem' # mem => Cur.op \in StoreOps \cup {"ECALL"}]_vars
AtMostOneRegister == [][Cardinality({i \in 1..32 : regs'[i] # regs[i]}) <= 1]_vars
(* the machine is deterministic and never stuck: exactly one successor kind   *)
NeverStuck == Running => (ENABLED Step) # (\E why \in Reasons : Refuse(why))
=============================================================================
