----------------------------- MODULE HeapTrace -----------------------------
(***************************************************************************)
(* Recorded requests of guests for memory must be behaviours of Heap.  An   *)
(* address is a pair of its upper and lower 16 bits; the top is <<65536, 0>>.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, image, held
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Plus(a, b) == <<a[1] + b[1] + (a[2] + b[2]) \div 65536, (a[2] + b[2]) % 65536>>
Aligned(p, a) == IF a <= 65536 THEN p[2] % a = 0 ELSE FALSE
H == INSTANCE Heap WITH Top <- <<65536, 0>>, Null <- <<0, 0>>, Slack <- <<16, 0>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.ev = n /\ l' = l + 1
Init == l = 1 /\ image = [from |-> <<0, 0>>, to |-> <<0, 0>>] /\ held = <<>>
Guest == Is("guest") /\ image' = [from |-> Ev.from, to |-> Ev.to] /\ held' = <<>>
Wide(a) == <<a \div 65536, a % 65536>>
(* the furthest any block could have reached, blocks given back included     *)
RECURSIVE Reach(_)
Reach(k) == IF Trace[k].ev = "guest" THEN Trace[k].to
            ELSE LET r == Reach(k - 1) IN
                 IF Trace[k].op.k # "free" /\ Trace[k].at # <<0, 0>> /\ ~Le(Plus(Trace[k].at, Trace[k].op.n), r) THEN Plus(Trace[k].at, Trace[k].op.n) ELSE r
Ask == /\ Is("ask") /\ Ev.good /\ Ev.kept
       /\ IF Ev.op.k = "free" THEN H!Free(Ev.op.slot)
          ELSE IF Ev.at = <<0, 0>> THEN ~H!Room(Reach(l - 1), Ev.op.n, Wide(Ev.op.align)) /\ H!Refuse
          ELSE IF Ev.op.k = "resize" THEN H!Resize(Ev.op.slot, Ev.at, Ev.op.n)
          ELSE H!Give(Ev.op.slot, Ev.at, Ev.op.n, Ev.op.align)
Next == Guest \/ Ask
Spec == Init /\ [][Next]_<<l, image, held>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
