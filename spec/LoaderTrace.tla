----------------------------- MODULE LoaderTrace -----------------------------
(* Every recorded load by the real code is a behaviour of Loader.           *)
EXTENDS Loader, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]

AsMap(pairs) == [a \in {pairs[i][1] : i \in DOMAIN pairs} |->
                   pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = a][2]]
Same(pairs, m) == Len(pairs) = Cardinality(DOMAIN m) /\ \A i \in DOMAIN pairs : pairs[i][1] \in DOMAIN m /\ m[pairs[i][1]] = pairs[i][2]

Init == l = 1
Take(n) == l <= Len(Trace) /\ Ev.ev = n
Judged(o, s) ==
  IF Refused(s) THEN ~o.ok
  ELSE /\ o.ok /\ o.entry = Entry(Ev.bytes)
       /\ Same(o.ro, s.ro) /\ Same(o.rw, s.rw) /\ Same(o.code, CodeOf(s.xs))
       (* the machine before its first step *)
       /\ o.boot.pc = Entry(Ev.bytes) /\ o.boot.regs0
       /\ Same(o.boot.mem, MemoryOf(s.ro, s.rw))
       /\ {o.boot.fixed[i] : i \in DOMAIN o.boot.fixed} = DOMAIN s.ro
Elf == Take("elf") /\ LET s == Run(Ev.bytes) IN Judged(Ev.mozak, s) /\ Judged(Ev.vanilla, s) /\ l' = l + 1

Image == /\ Take("bytes") /\ Same(Ev.code, CodeOf(AsMap(Ev.image))) /\ l' = l + 1
Words == /\ Take("words")
         /\ LET ws == AsMap(Ev.image) IN
              /\ IF Clash(ws) THEN ~Ev.data.ok ELSE Ev.data.ok /\ Same(Ev.data.bytes, BytesOf(ws))
              /\ IF \E a \in DOMAIN ws : a[1] % 4 # 0 THEN ~Ev.program.ok
                 ELSE /\ Ev.program.ok /\ Ev.program.entry = W0
                      /\ Len(Ev.program.ro) = 0 /\ Same(Ev.program.rw, BytesOf(ws))
                      /\ Same(Ev.program.code, CodeOf(BytesOf(ws)))
         /\ l' = l + 1
Next == Elf \/ Image \/ Words
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
