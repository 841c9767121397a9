----------------------------- MODULE DecodeTrace -----------------------------
(* Every recorded call of the real decoder returns what Decode derives.     *)
EXTENDS Decode, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next == l <= Len(Trace) /\ Trace[l].got = DecodeWord(Trace[l].pc, Trace[l].word) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
