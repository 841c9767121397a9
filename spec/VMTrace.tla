------------------------------- MODULE VMTrace -------------------------------
(***************************************************************************)
(* Trace validation: every recorded execution of the real VM must be a     *)
(* behaviour of VM.  One line per event:                                   *)
(*  boot  - program words, registers, memory images, tapes                 *)
(*  step  - what the real VM changed (registers, bytes, cursors, pc, ...)  *)
(*  stop  - how the execution ended                                        *)
(***************************************************************************)
EXTENDS Decode, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS           \* "record" also compares the aux columns

VARIABLES l, code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted
(* the first line tabulates the reference hash of every input that occurs    *)
hashes == Trace[1].table
HashOf(inp) == IF \E i \in DOMAIN hashes : hashes[i].inp = inp
               THEN hashes[CHOOSE i \in DOMAIN hashes : hashes[i].inp = inp].out
               ELSE [i \in 1..32 |-> 0]
M == INSTANCE VM WITH Hash <- HashOf
tvars == <<l, code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted>>

AsMap(pairs) == [a \in {pairs[i][1] : i \in DOMAIN pairs} |->
                   pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = a][2]]
(* code either as raw words (decoded here) or as decoded instructions        *)
Decoded(p) == IF "op" \in DOMAIN p[2] THEN p[2] ELSE DecodeWord(p[1], p[2].word)
CodeMap(e) == LET ps == e.code IN
  [a \in {ps[i][1] : i \in DOMAIN ps} |-> Decoded(ps[CHOOSE i \in DOMAIN ps : ps[i][1] = a])]
TapeMap(e) == [t \in DOMAIN e.tapes |-> [data |-> e.tapes[t], pos |-> 0]]
RegFile(e) == e.regs

Blank == /\ code = <<>> /\ pc = W0 /\ regs = [i \in 1..32 |-> W0] /\ mem = <<>> /\ ro = {}
         /\ tapes = <<>> /\ halted = FALSE /\ clk = 0 /\ aux = [none |-> TRUE] /\ aborted = TRUE
TraceInit == l = 2 /\ Trace[1].ev = "hashes" /\ Blank
Ev == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1

Boot == /\ IsEvent("boot")
        /\ (halted \/ aborted)
        /\ code' = CodeMap(Ev) /\ pc' = Ev.pc /\ regs' = RegFile(Ev)
        /\ LET rw == AsMap(Ev.rw)  r == AsMap(Ev.ro) IN
             /\ mem' = [a \in DOMAIN rw \cup DOMAIN r |-> IF a \in DOMAIN r THEN r[a] ELSE rw[a]]
             /\ ro' = DOMAIN r
        /\ tapes' = TapeMap(Ev) /\ halted' = FALSE /\ clk' = 2 /\ aux' = [none |-> TRUE] /\ aborted' = FALSE
        (* the real VM's initial state, as observed                          *)
        /\ Ev.seen.clk = clk' /\ Ev.seen.pc = pc' /\ Ev.seen.halted = FALSE
        /\ AsMap(Ev.seen.mem) = mem' /\ {Ev.seen.ro[i] : i \in DOMAIN Ev.seen.ro} = ro'

RegDiff == {i \in 0..31 : regs'[i + 1] # regs[i + 1]}
SameRegs(d) == /\ \A i \in DOMAIN d : regs'[d[i][1] + 1] = d[i][2]
               /\ RegDiff \subseteq {d[i][1] : i \in DOMAIN d}
SameMem(d) == LET at == {d[i][1] : i \in DOMAIN d} IN
               /\ \A i \in DOMAIN d : d[i][1] \in DOMAIN mem' /\ mem'[d[i][1]] = d[i][2]
               /\ \A a \in DOMAIN mem' : (a \notin DOMAIN mem \/ mem'[a] # mem[a]) => a \in at
SameAux(x) == Focus = "record" =>
   /\ x.dst = aux'.dst /\ x.new_pc = aux'.new_pc /\ x.halt = aux'.halt
   /\ x.op1 = aux'.op1 /\ x.op2 = aux'.op2 /\ x.op2_raw = aux'.op2_raw
   /\ x.mem = aux'.mem /\ x.used = aux'.used
   /\ x.dev = aux'.dev
   /\ Len(x.hash) = Len(aux'.hash)
   /\ (x.hash # <<>> => /\ x.hash[1].addr = aux'.hash[1].addr /\ x.hash[1].out = aux'.hash[1].out
                        /\ x.hash[1].len = aux'.hash[1].len /\ x.hash[1].sponge_ok)
   /\ x.ins = code[pc]
Step == /\ IsEvent("step")
        /\ M!Step
        /\ SameRegs(Ev.regs) /\ SameMem(Ev.mem)
        /\ Ev.pc = pc' /\ Ev.clk = clk' /\ Ev.halted = halted'
        /\ \A t \in DOMAIN Ev.pos : Ev.pos[t] = tapes'[t].pos
        /\ Ev.ro_same
        /\ SameAux(Ev.aux)
Stop == /\ IsEvent("stop")
        /\ \/ Ev.why = "halted" /\ halted /\ UNCHANGED <<code, pc, regs, mem, ro, tapes, halted, clk, aux, aborted>>
           \/ Ev.why = "abort" /\ M!DoAbort
              /\ (M!Refuse("guest-panic") /\ "msg" \in DOMAIN Ev => Ev.msg = M!GuestMessage)
           \/ Ev.why = "limit" /\ M!Running /\ aborted' = TRUE
              /\ UNCHANGED <<code, pc, regs, mem, ro, tapes, halted, clk, aux>>
TraceNext == Boot \/ Step \/ Stop
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
Inv == M!ZeroRegister /\ M!TypeOK
=============================================================================
