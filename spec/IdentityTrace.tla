--------------------------- MODULE IdentityTrace ---------------------------
(***************************************************************************)
(* Recorded identities: programs, each a variation of an earlier one, put     *)
(* together in any order, and the identity the real code gives them.  Every   *)
(* two of a group are compared.                                              *)
(***************************************************************************)
EXTENDS Identity, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          known   \* contents and identities of the group so far
Init == l = 1 /\ known = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]
           IN IF e.ev = "begin" THEN known' = {}
              ELSE /\ e.ev = "program"      \* nothing else counts as an identity
                   /\ LET c == Content(e.program)
                      IN /\ \A k \in known : (k.content = c) <=> (k.id = e.id)
                         /\ known' = known \cup {[content |-> c, id |-> e.id]}
Spec == Init /\ [][Next]_<<l, known>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
