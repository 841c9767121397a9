---------------------------- MODULE NodeAddrTrace ----------------------------
(* Every recorded answer of the node's address arithmetic and tree builders *)
(* is the one NodeAddr gives.                                               *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Pair(x, y) == <<x, y>>
A == INSTANCE NodeAddr WITH Width <- 64, Join <- Pair

Init == l = 1
Ok == CASE Ev.ev = "compare"  -> Ev.got = A!Compare(Ev.x, Ev.y)
        [] Ev.ev = "ancestor" -> Ev.got = A!Common(Ev.x, Ev.y)
        [] Ev.ev = "parent"   -> Ev.got = A!Up(Ev.x, Ev.n)
        [] Ev.ev = "path"     -> Ev.got = [dirs |-> A!Dirs(Ev.bits), zeros |-> A!Zeros(Ev.bits)]
        [] Ev.ev = "tree"     -> Ev.got = A!TreeOf([i \in 1..Ev.n |-> <<i - 1>>])
        [] Ev.ev = "trie"     -> Ev.got = A!TrieOf([i \in DOMAIN Ev.leaves |-> <<Ev.leaves[i], <<i - 1>>>>])
Next == l <= Len(Trace) /\ Ok /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
