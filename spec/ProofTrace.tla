----------------------------- MODULE ProofTrace -----------------------------
(* Everything an honest or dishonest prover got proved means what Proofs     *)
(* says.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Nodes == ndJsonDeserialize(IOEnv.TERMS)
VARIABLE l
NodeOf(d) == Nodes[d]
ZeroDigest == CHOOSE d \in DOMAIN Nodes : Nodes[d].k = "zero"
ExcusedHere(name) ==
  /\ CASE name = "program-verifier" -> IOEnv.KNOWN_PROGRAM_VERIFIER = "1"
       [] name = "credit-owner" -> IOEnv.KNOWN_CREDIT_OWNER = "1"
       [] name = "credits-wrap" -> IOEnv.KNOWN_CREDITS_WRAP = "1"
  /\ PrintT("KNOWN {" \o name \o "}")
X == INSTANCE Proofs WITH Node <- NodeOf, Zero <- ZeroDigest, Excused <- ExcusedHere
Init == l = 1
(* a void claim of a branch says nothing; leaves rest on no other proof of   *)
(* their kind                                                                *)
Leafs == {"acc_leaf", "ev_leaf", "mg_leaf", "pr_leaf", "tx_leaf", "ma_leaf"}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Trace[l]
           IN IF f.ev = "match"
              THEN IF f.ok THEN X!Provable(f, ExcusedHere) ELSE ~X!Provable(f, LAMBDA name : FALSE)
              ELSE IF f.ev = "merge" THEN f.ok
              ELSE IF f.ev = "lone" THEN f.ok = f.inside
              ELSE
              /\ f.kind \in X!Recursive => f.accepted = ~f.void
              /\ (f.void /\ f.kind \notin Leafs) \/ X!Meaning(f, f.kids)
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
