-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Memory a guest asks for.  A block it is given is aligned as asked, lies   *)
(* within the address space, and overlaps neither the program nor any block *)
(* still in use; it is refused only if there may be no room.                *)
(*                                                                          *)
(*  held   the blocks in use: slot -> [from, to) and the alignment          *)
(* Addresses are numbers as Le, Plus and Aligned understand them.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Le(_, _), Plus(_, _), Aligned(_, _), Top, Null, Slack
VARIABLES image, held
(* functions grow by blocks and shrink by them                              *)
Without(s) == [k \in DOMAIN held \ {s} |-> held[k]]
With(s, b) == [k \in DOMAIN held \cup {s} |-> IF k = s THEN b ELSE held[k]]
Apart(a, b) == Le(a.to, b.from) \/ Le(b.to, a.from)
Used == {image} \cup {held[k] : k \in DOMAIN held}
(* blocks given back need not be given out again                            *)
Room(reach, n, a) == Le(Plus(Plus(Plus(reach, n), a), Slack), Top)

Place(at, n, a, others) ==
  /\ at # Null /\ Aligned(at, a) /\ Le(Plus(at, n), Top)
  /\ \A b \in others : Apart([from |-> at, to |-> Plus(at, n)], b)
Give(s, at, n, a) ==
  /\ s \notin DOMAIN held
  /\ Place(at, n, a, Used)
  /\ held' = With(s, [from |-> at, to |-> Plus(at, n), align |-> a]) /\ UNCHANGED image
(* a block that is resized may stay where it is or move                     *)
Resize(s, at, n) ==
  /\ s \in DOMAIN held
  /\ Place(at, n, held[s].align, {image} \cup {held[k] : k \in DOMAIN held \ {s}})
  /\ held' = [held EXCEPT ![s] = [@ EXCEPT !.from = at, !.to = Plus(at, n)]] /\ UNCHANGED image
Free(s) == s \in DOMAIN held /\ held' = Without(s) /\ UNCHANGED image
Refuse == UNCHANGED <<image, held>>
=============================================================================
