------------------------- MODULE MachineProofTrace -------------------------
(***************************************************************************)
(* Recorded proofs: made by the real provers, altered or made from tables    *)
(* that do not hold together, judged by the real verifiers (native) and by    *)
(* the circuits that verify (rec).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tables == Trace[1]
M == INSTANCE MachineProof WITH Names <- Tables.names,
       Separate <- {Tables.separate[i] : i \in DOMAIN Tables.separate}, Challenges <- Tables.challenges
VARIABLES l,
          run   \* the execution the proofs are about
Says(p) == p.entry = run.entry /\ p.id = run.id /\ p.event = run.event /\ p.cast = run.cast
(* an honest proof is accepted by everyone and says what was executed         *)
Honest(e) == e.native /\ e.rec /\ Says(e.proof) /\ Says(e.published)
(* a circuit has a place for each value and no other: it does not read what is *)
(* too much, and what is missing is filled in with what follows from the rest *)
Unread(e) == e.what.kind \in {"shape", "public shape"}
(* accepted exactly if nothing of it is changed                              *)
Alter(e) == e.native = e.fine /\ (Unread(e) \/ e.rec = e.fine)
(* accepted exactly if the tables hold together                              *)
Forge(e) == e.native = e.fine /\ e.rec = e.fine
(* a challenge depends on exactly what was said before it; a verifier may     *)
(* give up before it draws them all                                          *)
Dependence(e) == IF e.n # M!Total(e.on) THEN PrintT("other layout")
                 ELSE LET b == M!Bound(e.on, e.msg) IN \A i \in DOMAIN e.changed : e.changed[i] = b[i]
Init == l = 2 /\ run = [entry |-> <<>>] /\ M!Binding("single") /\ M!Binding("batch")
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]
           IN IF e.ev = "run" THEN run' = e
              ELSE /\ UNCHANGED run
                   /\ CASE e.ev = "honest" -> Honest(e)
                        [] e.ev = "alter" -> Alter(e)
                        [] e.ev = "forge" -> Forge(e)
                        [] e.ev = "draws" -> Dependence(e)
                        [] OTHER -> FALSE      \* no proof of an execution
Spec == Init /\ [][Next]_<<l, run>>
Done == TLCGet("stats").diameter = Len(Trace)
=============================================================================
