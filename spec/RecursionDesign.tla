-------------------------- MODULE RecursionDesign --------------------------
(***************************************************************************)
(* Circuits that verify proofs of themselves.  A circuit cannot contain its  *)
(* own verifier, so a claim names the circuit its recursion is over, and a   *)
(* branch verifies its parts with the circuit it names itself.  A prover     *)
(* makes circuits of its own ("fake") that prove anything.  Whoever uses a   *)
(* branch's proof must look at the name: with Look, everything below what is *)
(* used is genuine; without, it need not be.  Passing: a branch asks its     *)
(* parts to name the same circuit.                                           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Look, Passing
Circuits == {"leaf", "branch", "fake"}
VARIABLES claims, used   \* what is proved; and what was built upon
Claim(c, n, g) == [circuit |-> c, names |-> n, genuine |-> g]
Init == claims = {} /\ used = {}
Leaf == \E n \in Circuits : claims' = claims \cup {Claim("leaf", n, TRUE)} /\ UNCHANGED used
Fake == \E n \in Circuits : claims' = claims \cup {Claim("fake", n, FALSE)} /\ UNCHANGED used
Part(k, n) == /\ k.circuit \in {"leaf", n}
              /\ Passing => k.names = n
Branch == \E x \in claims, y \in claims, n \in Circuits :
            /\ Part(x, n) /\ Part(y, n)
            /\ claims' = claims \cup {Claim("branch", n, x.genuine /\ y.genuine)} /\ UNCHANGED used
Use == \E x \in claims : /\ x.circuit = "branch" /\ (Look => x.names = "branch")
                         /\ used' = used \cup {x} /\ UNCHANGED claims
Next == Leaf \/ Fake \/ Branch \/ Use
Spec == Init /\ [][Next]_<<claims, used>>
Genuine == \A x \in used : x.genuine
(* what a meaningful design must allow                                       *)
NothingUsed == used = {}
=============================================================================
