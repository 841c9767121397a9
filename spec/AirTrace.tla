------------------------------ MODULE AirTrace ------------------------------
(***************************************************************************)
(* What a proof may claim.  The constraint system of the prover accepts    *)
(* some sets of tables; every accepted set claims an execution, and that   *)
(* execution must be a behaviour of VM for the program proved, for some    *)
(* initial registers and some contents of the input devices (both are the  *)
(* prover's to choose, except that what is read from a commitment device   *)
(* must be the commitment the proof publishes).  One line per event:       *)
(*  boot    - program, initial registers, device contents                  *)
(*  row     - one instruction as claimed                                   *)
(*  run     - one instruction, nothing claimed about it                    *)
(*  bad     - a claim that is not even about machine words                 *)
(*  verdict - did the constraint system accept, and were the tables made   *)
(*            by the honest prover from an honest execution                *)
(***************************************************************************)
EXTENDS Decode, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
(* deviations that are recorded findings, by name                            *)
Known == {Trace[1].known[i] : i \in DOMAIN Trace[1].known}

VARIABLES l, code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted, gap
hashes == Trace[1].table
HashOf(inp) == IF \E i \in DOMAIN hashes : hashes[i].inp = inp
               THEN hashes[CHOOSE i \in DOMAIN hashes : hashes[i].inp = inp].out
               ELSE [i \in 1..32 |-> 0]
M == INSTANCE VM WITH Hash <- HashOf
mvars == <<code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted>>
tvars == <<l, code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted, gap>>

AsMap(pairs) == [a \in {pairs[i][1] : i \in DOMAIN pairs} |->
                   pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = a][2]]
AsSet(pairs) == {pairs[i] : i \in DOMAIN pairs}
Decoded(p) == IF "op" \in DOMAIN p[2] THEN p[2] ELSE DecodeWord(p[1], p[2].word)
CodeMap(e) == LET ps == e.code IN
  [a \in {ps[i][1] : i \in DOMAIN ps} |-> Decoded(ps[CHOOSE i \in DOMAIN ps : ps[i][1] = a])]

Init == /\ l = 2 /\ Trace[1].ev = "hashes" /\ gap = {}
        /\ code = <<>> /\ pc = W0 /\ regs = [i \in 1..32 |-> W0] /\ mem = <<>> /\ ro = {}
        /\ tapes = <<>> /\ halted = TRUE /\ clk = 0 /\ aux = [none |-> TRUE] /\ aborted = FALSE
Ev == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1

Boot == /\ IsEvent("boot")
        /\ code' = CodeMap(Ev) /\ pc' = Ev.pc /\ regs' = Ev.regs
        /\ LET rw == AsMap(Ev.rw)  r == AsMap(Ev.ro) IN
             /\ mem' = [a \in DOMAIN rw \cup DOMAIN r |-> IF a \in DOMAIN r THEN r[a] ELSE rw[a]]
             /\ ro' = DOMAIN r
        /\ tapes' = [t \in DOMAIN Ev.tapes |-> [data |-> Ev.tapes[t], pos |-> 0]]
        /\ halted' = FALSE /\ clk' = 2 /\ aux' = [none |-> TRUE] /\ aborted' = FALSE /\ gap' = {}

(* finding: a register may start with a number that is no machine word; what *)
(* is claimed of an execution that reads it is beyond the machine            *)
Wide == /\ IsEvent("wide") /\ "wide-init" \in Known
        /\ gap' = {"wide-init"} /\ halted' = TRUE
        /\ UNCHANGED <<code, pc, regs, mem, ro, tapes, clk, aux, aborted>>

-----------------------------------------------------------------------------
(* what the claim says about the instruction just taken                      *)
WritesReg == code[pc].op \in M!AluOps \cup M!LoadOps \cup {"JALR"}
Reads == IF aux'.hash # <<>>
         THEN {<<WAddN(aux'.hash[1].addr, i), M!Peek(WAddN(aux'.hash[1].addr, i))>> : i \in 0..(WToNat(aux'.hash[1].len) - 1)}
         ELSE IF code[pc].op \in M!LoadOps
         THEN {<<aux'.used[i], aux'.mem[1].raw[i]>> : i \in DOMAIN aux'.used}
         ELSE {}
Writes == IF aux'.hash # <<>>
          THEN {<<WAddN(aux'.hash[1].out, i), mem'[WAddN(aux'.hash[1].out, i)]>> : i \in 0..31}
          ELSE IF code[pc].op \in M!StoreOps \/ aux'.dev # <<>>
          THEN {<<aux'.used[i], mem'[aux'.used[i]]>> : i \in DOMAIN aux'.used}
          ELSE {}
Claimed == /\ Ev.pc = pc /\ Ev.new_pc = aux'.new_pc
           /\ Ev.op1 = aux'.op1 /\ Ev.op2 = aux'.op2_raw
           /\ (WritesReg /\ code[pc].rd # 0 => Ev.rd = code[pc].rd /\ Ev.dst = aux'.dst)
           /\ Ev.halt = aux'.halt
           /\ AsSet(Ev.reads) = Reads /\ AsSet(Ev.writes) = Writes
           /\ Len(Ev.dev) = Len(aux'.dev)
           /\ (Ev.dev # <<>> => Ev.dev[1].tape = aux'.dev[1].tape /\ Ev.dev[1].data = aux'.dev[1].data)

(* instructions of an execution for which the constraint system is known to  *)
(* offer no tables at all                                                    *)
WrapsOn(a, n) == WLtU(WAddN(a, n), a)
Gap == LET c == code[pc] IN
  (IF c.op = "JALR" /\ WAdd(M!Reg(c.rs1), c.imm)[1] % 2 = 1 THEN {"jalr-odd"} ELSE {})
  \cup (IF c.op = "ECALL" /\ ENABLED M!DoNopEcall THEN {"other-ecall"} ELSE {})
  \cup (IF M!IsEcall({3}) /\ M!HashLenOk /\ (WrapsOn(M!A1, WToNat(M!A2)) \/ WrapsOn(M!A3, 32)) THEN {"hash-wrap"} ELSE {})
  \cup (IF M!IsEcall({7, 8}) /\ M!Avail(M!ReadTape(M!A0[1])) # 32 THEN {"commitment-part"} ELSE {})
Track == gap' = gap \cup Gap

Row == IsEvent("row") /\ M!Step /\ Claimed /\ Track
Run == IsEvent("run") /\ M!Step /\ Track
(* finding: what a guest reads as its own identifier is the prover's choice,  *)
(* anew at every read                                                        *)
(* finding: the number of bytes a device hands out is the prover's choice    *)
(* finding: a proof publishes the bytes of a commitment in any order         *)
SamePool(a, b) == Len(a) = Len(b) /\ \A v \in {a[i] : i \in DOMAIN a} \cup {b[i] : i \in DOMAIN b} :
  Cardinality({i \in DOMAIN a : a[i] = v}) = Cardinality({i \in DOMAIN b : b[i] = v})
LooseRead(t, bs) ==
  LET avail == SubSeq(tapes[t].data, tapes[t].pos + 1, Len(tapes[t].data)) IN
  IF t \in {"events_commitment", "cast_list_commitment"} /\ SamePool(bs, avail) /\ M!Avail(t) = 32
  THEN IF bs = avail THEN {} ELSE {"commitment-order"}
  ELSE IF t = "self_prog_id" THEN IF bs = SubSeq(avail, 1, M!Avail(t)) THEN {} ELSE {"self-prog-id"}
  ELSE {"tape-length"}
LongRead ==
  /\ IsEvent("row") /\ M!IsEcall({2, 4, 5, 6, 7, 8, 9}) /\ Len(Ev.dev) = 1
  /\ LET t == M!ReadTape(M!A0[1])
         bs == Ev.dev[1].data IN
       /\ Ev.dev[1].tape = t
       /\ LooseRead(t, bs) # {} /\ LooseRead(t, bs) \subseteq Known
       /\ Len(bs) # M!Avail(t) \/ {"commitment-order", "self-prog-id"} \cap LooseRead(t, bs) # {}
       /\ M!Writable(M!A1, Len(bs))
       /\ mem' = M!MemWrite(M!A1, bs)
       /\ AsSet(Ev.writes) = {<<WAddN(M!A1, i - 1), bs[i]>> : i \in 1..Len(bs)}
       /\ Ev.reads = <<>> /\ Ev.pc = pc /\ Ev.new_pc = M!PcPlus4 /\ ~Ev.halt
       /\ tapes' = IF t \in M!StreamTapes THEN [tapes EXCEPT ![t].pos = @ + Len(bs)] ELSE tapes
       /\ pc' = M!PcPlus4 /\ clk' = clk + 1 /\ aux' = [none |-> TRUE]
       /\ UNCHANGED <<code, ro, aborted, regs, halted>>
       /\ gap' = gap \cup LooseRead(t, bs)

Verdict ==
  /\ IsEvent("verdict")
  /\ halted
  /\ Ev.accepted \/ (Ev.honest /\ gap \cap Known # {})
  /\ (~Ev.accepted => PrintT("KNOWN " \o ToString(gap \cap Known) \o " " \o Ev.how))
  /\ LET loose == gap \cap {"tape-length", "commitment-order", "self-prog-id", "wide-init"} IN
       Ev.accepted /\ loose # {} => PrintT("KNOWN " \o ToString(loose) \o " " \o Ev.how)
  /\ UNCHANGED <<code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted, gap>>
Next == Boot \/ Wide \/ Row \/ Run \/ LongRead \/ Verdict
Spec == Init /\ [][Next]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
Inv == M!ZeroRegister
=============================================================================
