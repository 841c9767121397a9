------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* The instruction encodings of RV32IM as 0xmozak/mozak-vm accepts them:   *)
(* which words are instructions, which operation each selects, and where   *)
(* every operand bit comes from.  Written from the RISC-V manual's tables, *)
(* plus the VM's documented choices (absolute branch/jump targets, loads   *)
(* and stores keep the base in rs2, shifts-by-immediate are multiplication *)
(* or division by a power of two, SYSTEM/FENCE subset is a no-op).         *)
(***************************************************************************)
EXTENDS Word, FiniteSets

(* ---- formats: for each of the 32 immediate bits, its source bit in the  *)
(* word (-1: constant zero).                                                *)
ImmSrc == [
  I |-> [i \in 0..31 |-> IF i <= 10 THEN 20 + i ELSE 31],
  S |-> [i \in 0..31 |-> IF i <= 4 THEN 7 + i ELSE IF i <= 10 THEN 20 + i ELSE 31],
  B |-> [i \in 0..31 |-> IF i = 0 THEN -1 ELSE IF i <= 4 THEN 7 + i
                          ELSE IF i <= 10 THEN 20 + i ELSE IF i = 11 THEN 7 ELSE 31],
  U |-> [i \in 0..31 |-> IF i <= 11 THEN -1 ELSE i],
  J |-> [i \in 0..31 |-> IF i = 0 THEN -1 ELSE IF i <= 10 THEN 20 + i
                          ELSE IF i = 11 THEN 20 ELSE IF i <= 19 THEN i ELSE 31],
  SH |-> [i \in 0..31 |-> IF i <= 4 THEN 20 + i ELSE -1],
  Z |-> [i \in 0..31 |-> -1]]

(* operand layout of every format: imm source, post-processing of imm,     *)
(* which word field (by lsb, -1 = constant) feeds rd, rs1, rs2             *)
Fmt == [
  R    |-> [imm |-> "Z",  post |-> "id",   rd |-> 7,  rs1 |-> 15, rs2 |-> 20],
  I    |-> [imm |-> "I",  post |-> "id",   rd |-> 7,  rs1 |-> 15, rs2 |-> -1],
  L    |-> [imm |-> "I",  post |-> "id",   rd |-> 7,  rs1 |-> -1, rs2 |-> 15],
  S    |-> [imm |-> "S",  post |-> "id",   rd |-> -1, rs1 |-> 20, rs2 |-> 15],
  B    |-> [imm |-> "B",  post |-> "pc",   rd |-> -1, rs1 |-> 15, rs2 |-> 20],
  U    |-> [imm |-> "U",  post |-> "id",   rd |-> 7,  rs1 |-> -1, rs2 |-> -1],
  UPC  |-> [imm |-> "U",  post |-> "pc",   rd |-> 7,  rs1 |-> -1, rs2 |-> -1],
  J    |-> [imm |-> "J",  post |-> "pc",   rd |-> 7,  rs1 |-> -1, rs2 |-> -1],
  SHA  |-> [imm |-> "SH", post |-> "id",   rd |-> 7,  rs1 |-> 15, rs2 |-> -1],
  SHP  |-> [imm |-> "SH", post |-> "pow2", rd |-> 7,  rs1 |-> 15, rs2 |-> -1],
  NOP  |-> [imm |-> "Z",  post |-> "id",   rd |-> -1, rs1 |-> -1, rs2 |-> -1],
  SYS  |-> [imm |-> "Z",  post |-> "id",   rd |-> -1, rs1 |-> -1, rs2 |-> -1]]

Bad == [op |-> "ERROR", fmt |-> "NOP"]
Ins(o, f) == [op |-> o, fmt |-> f]

(* f12 = bits 31..20, f7 = bits 31..25                                      *)
OpReg(f3, f7) ==
  CASE f7 = 0  -> Ins(<<"ADD", "SLL", "SLT", "SLTU", "XOR", "SRL", "OR", "AND">>[f3 + 1], "R")
    [] f7 = 1  -> Ins(<<"MUL", "MULH", "MULHSU", "MULHU", "DIV", "DIVU", "REM", "REMU">>[f3 + 1], "R")
    [] f7 = 32 /\ f3 = 0 -> Ins("SUB", "R")
    [] f7 = 32 /\ f3 = 5 -> Ins("SRA", "R")
    [] OTHER -> Bad
OpImm(f3, f7) ==
  CASE f3 = 0 -> Ins("ADD", "I")
    [] f3 = 1 -> IF f7 = 0 THEN Ins("MUL", "SHP") ELSE Bad          \* SLLI
    [] f3 = 2 -> Ins("SLT", "I")
    [] f3 = 3 -> Ins("SLTU", "I")
    [] f3 = 4 -> Ins("XOR", "I")
    [] f3 = 5 -> IF f7 = 0 THEN Ins("DIVU", "SHP")                  \* SRLI
                 ELSE IF f7 = 32 THEN Ins("SRA", "SHA") ELSE Bad    \* SRAI
    [] f3 = 6 -> Ins("OR", "I")
    [] OTHER  -> Ins("AND", "I")
OpLoad(f3) == CASE f3 = 0 -> Ins("LB", "L") [] f3 = 1 -> Ins("LH", "L") [] f3 = 2 -> Ins("LW", "L")
                [] f3 = 4 -> Ins("LBU", "L") [] f3 = 5 -> Ins("LHU", "L") [] OTHER -> Bad
OpStore(f3) == CASE f3 = 0 -> Ins("SB", "S") [] f3 = 1 -> Ins("SH", "S") [] f3 = 2 -> Ins("SW", "S") [] OTHER -> Bad
OpBranch(f3) == CASE f3 = 0 -> Ins("BEQ", "B") [] f3 = 1 -> Ins("BNE", "B") [] f3 = 4 -> Ins("BLT", "B")
                  [] f3 = 5 -> Ins("BGE", "B") [] f3 = 6 -> Ins("BLTU", "B") [] f3 = 7 -> Ins("BGEU", "B")
                  [] OTHER -> Bad
OpSystem(f3, f12) ==
  CASE f3 = 0 /\ f12 = 0   -> Ins("ECALL", "SYS")
    [] f3 = 0 /\ f12 = 1   -> Ins("ADD", "NOP")    \* EBREAK
    [] f3 = 0 /\ f12 = 770 -> Ins("ADD", "NOP")    \* MRET
    [] f3 = 1 /\ f12 < 3072 -> Ins("ADD", "NOP")   \* CSRRW; from 0xC00 on CSRs are read-only
    [] f3 = 2 -> Ins("ADD", "NOP")                 \* CSRRS
    [] f3 = 5 /\ f12 < 3072 -> Ins("ADD", "NOP")   \* CSRRWI
    [] OTHER -> Bad

Class(opc, f3, f12) ==
  LET f7 == f12 \div 32 IN
  CASE opc = 51  -> OpReg(f3, f7)
    [] opc = 19  -> OpImm(f3, f7)
    [] opc = 3   -> OpLoad(f3)
    [] opc = 35  -> OpStore(f3)
    [] opc = 99  -> OpBranch(f3)
    [] opc = 115 -> OpSystem(f3, f12)
    [] opc = 111 -> Ins("JALR", "J")               \* JAL
    [] opc = 103 -> IF f3 = 0 THEN Ins("JALR", "I") ELSE Bad
    [] opc = 55  -> Ins("ADD", "U")                \* LUI
    [] opc = 23  -> Ins("ADD", "UPC")              \* AUIPC
    [] opc = 15  -> Ins("ADD", "NOP")              \* FENCE
    [] OTHER -> Bad

(* ---- decoding a concrete word                                            *)
Field(w, lsb, n) == LET b(i) == IF i < n THEN WBit(w, lsb + i) * 2^i ELSE 0
                    IN b(0) + b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8) + b(9) + b(10) + b(11)
ImmOf(src, w) ==
  [k \in 1..4 |-> LET bit(j) == LET s == ImmSrc[src][8 * (k - 1) + j]
                                IN IF s < 0 THEN 0 ELSE WBit(w, s) * 2^j
                  IN bit(0) + bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6) + bit(7)]
RegOf(lsb, w) == IF lsb < 0 THEN 0 ELSE Field(w, lsb, 5)

(* result: [op, rd, rs1, rs2, imm]; op = "ERROR" for words that are not     *)
(* instructions of the machine                                              *)
DecodeWord(pc, w) ==
  LET c == Class(Field(w, 0, 7), Field(w, 12, 3), Field(w, 20, 12))
      f == Fmt[c.fmt]
      raw == ImmOf(f.imm, w)
      imm == CASE f.post = "id" -> raw
               [] f.post = "pc" -> WAdd(pc, raw)
               [] f.post = "pow2" -> WPow2(raw[1])
  IN IF c.op = "ERROR" THEN [op |-> "ERROR"]
     ELSE IF c.fmt = "SYS" THEN [op |-> "ECALL", rd |-> 0, rs1 |-> 10, rs2 |-> 11, imm |-> W0]
     ELSE [op |-> c.op, rd |-> RegOf(f.rd, w), rs1 |-> RegOf(f.rs1, w), rs2 |-> RegOf(f.rs2, w), imm |-> imm]
=============================================================================
