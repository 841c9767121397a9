------------------------ MODULE MachineProofDesign -------------------------
(***************************************************************************)
(* Why the order of a proof and the shape of its parts matter, on a field   *)
(* small enough to try every challenge.  A table holds two bytes; it         *)
(* publishes them; a prover that may lie supplies other bytes.  The verifier *)
(* compares the sums of 1/(g + byte) for challenges g; and checks a table's  *)
(* constraints for each of its quotients.                                    *)
(*   Bind:  the published bytes are said before g is drawn                   *)
(*   Shape: the number of quotients (and of published bytes) is checked      *)
(* With both, a false claim passes for few of the challenges only; without   *)
(* Bind, whatever the challenge some false claim passes; without Shape, one  *)
(* false claim passes for every challenge.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
P == 31
F == 0..P - 1
Bytes == 0..4
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE (x * Pow(x, n - 1)) % P
InvOf == [x \in 1..P - 1 |-> Pow(x, P - 2)]
Inv(x) == IF x % P = 0 THEN 0 ELSE InvOf[x % P]
RECURSIVE SumInv(_, _)
SumInv(g, v) == IF v = <<>> THEN 0 ELSE (Inv(g + Head(v)) + SumInv(g, Tail(v))) % P
Same(v, w) == \A x \in Bytes : Cardinality({i \in DOMAIN v : v[i] = x}) = Cardinality({i \in DOMAIN w : w[i] = x})
VARIABLES cfg, pc, table, good, claim, g, quotients, accepted
vars == <<cfg, pc, table, good, claim, g, quotients, accepted>>
Init == /\ cfg \in [bind : BOOLEAN, shape : BOOLEAN]
        /\ pc = "commit" /\ table = <<>> /\ good = FALSE /\ claim = <<>> /\ g = 0 /\ quotients = 0 /\ accepted = FALSE
Commit == /\ pc = "commit" /\ table' \in {<<1, 3>>, <<2, 2>>} /\ good' \in BOOLEAN
          /\ pc' = (IF cfg.bind THEN "claim" ELSE "draw") /\ UNCHANGED <<cfg, claim, g, quotients, accepted>>
(* a claim is two bytes, or any field elements if that is not looked at       *)
Claim == /\ pc = "claim" /\ claim' \in {<<x, y>> : x, y \in F} \cup {<<x>> : x \in Bytes}
         /\ pc' = (IF cfg.bind THEN "draw" ELSE "close") /\ UNCHANGED <<cfg, table, good, g, quotients, accepted>>
Drawn == /\ pc = "draw" /\ g' \in {x \in F : \A b \in Bytes : (x + b) % P # 0}
         /\ pc' = (IF cfg.bind THEN "close" ELSE "claim") /\ UNCHANGED <<cfg, table, good, claim, quotients, accepted>>
Close == /\ pc = "close" /\ quotients' \in 0..1 /\ pc' = "verify"
         /\ UNCHANGED <<cfg, table, good, claim, g, accepted>>
Accepts(c, t, ok, cl, x, q) == /\ c.shape => q = 1 /\ Len(cl) = 2
                               /\ q > 0 => ok       \* no quotient: nothing to compare
                               /\ SumInv(x, cl) = SumInv(x, t)
Verify == /\ pc = "verify" /\ pc' = "done"
          /\ accepted' = Accepts(cfg, table, good, claim, g, quotients)
          /\ UNCHANGED <<cfg, table, good, claim, g, quotients>>
Next == Commit \/ Claim \/ Drawn \/ Close \/ Verify
Spec == Init /\ [][Next]_vars
(* a claim is false if its elements are not the table's, in some order (the   *)
(* order is not bound: a known gap)                                          *)
True(cl, t) == Len(cl) = 2 /\ (cl = t \/ cl = <<t[2], t[1]>>)
Challenges == {x \in F : \A b \in Bytes : (x + b) % P # 0}
(* what passed and is false passed by luck: of all challenges, at most the     *)
(* degree of the difference's numerator, less than four, would let it         *)
Sound == (accepted /\ cfg.bind /\ cfg.shape /\ ~(good /\ True(claim, table)))
         => /\ good
            /\ Cardinality({x \in Challenges : SumInv(x, claim) = SumInv(x, table)}) <= 3
NoConstraintSkipped == (accepted /\ cfg.shape) => good
(* and the two ways to fail are real                                         *)
ASSUME \A x \in Challenges : \E a, b \in F : ~True(<<a, b>>, <<1, 3>>) /\ SumInv(x, <<a, b>>) = SumInv(x, <<1, 3>>)
ASSUME Accepts([bind |-> TRUE, shape |-> FALSE], <<1, 3>>, FALSE, <<1, 3>>, 1, 0)
(* values never read back as others: a sum determines the bytes up to order   *)
ASSUME \A a, b, c, d \in Bytes : (\A x \in Challenges : SumInv(x, <<a, b>>) = SumInv(x, <<c, d>>)) => Same(<<a, b>>, <<c, d>>)
=============================================================================
