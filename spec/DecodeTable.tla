----------------------------- MODULE DecodeTable -----------------------------
(***************************************************************************)
(* Enumerates every encoding class (opcode, funct3, funct12) of Decode,    *)
(* checks the encoding map itself, and writes it as a table that the        *)
(* conformance driver applies to every 32-bit word.                         *)
(***************************************************************************)
EXTENDS Decode, Json, IOUtils, TLC

VARIABLES opc, f3
Init == opc \in 0..127 /\ f3 \in 0..7
Next == UNCHANGED <<opc, f3>>
Spec == Init /\ [][Next]_<<opc, f3>>

AllOps == {"ADD","SUB","XOR","OR","AND","SLL","SRL","SRA","SLT","SLTU","LB","LH","LW","LBU","LHU",
           "SB","SH","SW","BEQ","BNE","BLT","BGE","BLTU","BGEU","JALR","ECALL","MUL","MULH","MULHU",
           "MULHSU","DIV","DIVU","REM","REMU"}
(* Compressed and reserved opcode spaces never decode; every class is a      *)
(* known operation with a known format.                                      *)
LowBits == (opc % 4 # 3) => \A f \in 0..4095 : Class(opc, f3, f).op = "ERROR"
Known == \A f \in 0..4095 : LET c == Class(opc, f3, f) IN
            c.op \in AllOps \cup {"ERROR"} /\ c.fmt \in DOMAIN Fmt
(* every register-register arithmetic op has exactly one encoding            *)
OneEncoding == opc = 51 => \A f, g \in 0..127 :
   (Class(51, f3, 32*f).op # "ERROR" /\ Class(51, f3, 32*f).op = Class(51, f3, 32*g).op) => f = g
ASSUME Reachable == \A o \in AllOps : \E c \in {3, 15, 19, 23, 35, 51, 55, 99, 103, 111, 115}, k \in 0..7, f \in {0, 32, 1024} :
                       Class(c, k, f).op = o
(* sign extension: bit 31 of the word fills the top of every signed format   *)
ASSUME \A n \in {"I", "S", "B", "J"} : ImmSrc[n][31] = 31 /\ ImmSrc[n][20] = 31
(* no immediate bit is read twice below the sign                             *)
ASSUME \A n \in {"I", "S", "B", "U", "J"} : \A i, j \in 0..31 :
          (i # j /\ ImmSrc[n][i] = ImmSrc[n][j] /\ ImmSrc[n][i] >= 0) => ImmSrc[n][i] = 31

Whole(o, k) == \A f \in 0..4095 : Class(o, k, f) = Class(o, k, 0)
Rows == UNION { IF Whole(o, k)
                THEN IF Class(o, k, 0).op = "ERROR" THEN {}
                     ELSE { [opc |-> o, f3 |-> k, f12 |-> -1, op |-> Class(o, k, 0).op, fmt |-> Class(o, k, 0).fmt] }
                ELSE { [opc |-> o, f3 |-> k, f12 |-> f, op |-> Class(o, k, f).op, fmt |-> Class(o, k, f).fmt]
                         : f \in {f \in 0..4095 : Class(o, k, f).op # "ERROR"} }
              : o \in {3, 15, 19, 23, 35, 51, 55, 99, 103, 111, 115}, k \in 0..7 }
RowsOther == \A o \in (0..127) \ {3, 15, 19, 23, 35, 51, 55, 99, 103, 111, 115} : \A k \in 0..7 :
                \A f \in 0..4095 : Class(o, k, f).op = "ERROR"
ASSUME RowsOther
ASSUME JsonSerialize(IOEnv.OUT, [rows |-> Rows, fmt |-> Fmt,
          imm |-> [s \in DOMAIN ImmSrc |-> [i \in 1..32 |-> ImmSrc[s][i - 1]]]])
=============================================================================
