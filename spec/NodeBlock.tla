------------------------------ MODULE NodeBlock ------------------------------
(***************************************************************************)
(* The chain of blocks.  A block takes the events of completed transactions *)
(* and moves every object they speak of from an old to a new value; `world` *)
(* holds the objects, `height` counts the blocks.                           *)
(* An event is [owner, ty, value]: the program that emitted it, what it     *)
(* says, and the data or program it says it of.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Nobody,    \* the owner of objects that do not exist
          Height(_), \* a height as objects record it
          Never      \* and what those that do not exist have instead
VARIABLES height, world

Of(es, ty) == {i \in DOMAIN es : es[i].ty = ty}
AtMostOne(S) == Cardinality(S) <= 1
Updated(es) == Of(es, "Write") \cup Of(es, "GiveOwner") # {}

(* the events `es` at one address take the object from `old` to `new`        *)
Changes(es, old, new) ==
  /\ \A ty \in {"Write", "GiveOwner", "TakeOwner"} : AtMostOne(Of(es, ty))
  \* only the owner changes data or gives the object away
  /\ \A i \in Of(es, "Write") : es[i].owner = old.owner /\ es[i].value = new.data
  /\ \A i \in Of(es, "GiveOwner") : es[i].owner = old.owner /\ es[i].value = new.owner
  /\ \A i \in Of(es, "TakeOwner") : es[i].owner = new.owner /\ es[i].value = old.owner
  /\ \A i \in Of(es, "Read") : es[i].value = old.data
  /\ \A i \in Of(es, "Ensure") : es[i].value = new.data
  /\ old.data # new.data => Of(es, "Write") # {}
  \* ownership changes from nobody or to nobody, given and taken
  /\ (Of(es, "GiveOwner") = {}) = (Of(es, "TakeOwner") = {})
  /\ IF Of(es, "GiveOwner") # {}
     THEN (old.owner = Nobody) # (new.owner = Nobody)
     ELSE old.owner = new.owner /\ old.owner # Nobody
  /\ old.credits = new.credits
Moves(es, old, new) == es # <<>> /\ Changes(es, old, new)
LastOf(es, old, new, h) == IF new.owner = Nobody THEN Never ELSE IF Updated(es) THEN Height(h) ELSE old.last
Stamped(es, old, new, h) == [new EXCEPT !.last = LastOf(es, old, new, h)]

(* what the events of a block, by address, do to the objects; `objs` says    *)
(* from which to which object each address moves                             *)
AllMove(es, objs) == /\ DOMAIN es # {} /\ DOMAIN es = DOMAIN objs
                     /\ \A a \in DOMAIN es : Moves(es[a], objs[a].old, objs[a].new)
After(es, objs, h) == [a \in DOMAIN objs |-> Stamped(es[a], objs[a].old, objs[a].new, h)]

Begin(w) == height = 0 /\ world = w
(* a block is accepted exactly if its events move the objects of the present *)
(* world, and nothing else moves                                             *)
Block(es, objs) ==
  /\ AllMove(es, objs)
  /\ \A a \in DOMAIN objs : objs[a].old = world[a]
  /\ height' = height + 1
  /\ world' = [a \in DOMAIN world |-> IF a \in DOMAIN objs THEN After(es, objs, height + 1)[a] ELSE world[a]]
=============================================================================
