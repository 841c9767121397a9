--------------------------- MODULE NodeBlockDesign ---------------------------
(***************************************************************************)
(* Every block of up to MaxEvents events on two objects, chained.  What a   *)
(* block may do: nothing happens to an object without an event, data changes *)
(* only by a write of its owner, objects come from and go to nobody only by  *)
(* agreement of both sides, and the events determine the new objects.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Addrs, Programs, Data, MaxEvents, MaxHeight
VARIABLES height, world, before, last
vars == <<height, world, before, last>>
Identity(h) == h
X == INSTANCE NodeBlock WITH Nobody <- 0, Height <- Identity, Never <- 0
Owners == Programs \cup {0}
Events == [owner : Owners, ty : {"Write", "Ensure", "Read"}, value : Data]
          \cup [owner : Owners, ty : {"GiveOwner", "TakeOwner"}, value : Owners]
(* their order does not matter: one list for each bag of events              *)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o Listed(S \ {e})
Catalogue == Listed(Events)
RECURSIVE Bags(_, _)
Bags(k, n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup UNION {{<<Catalogue[i]>> \o s : s \in Bags(i, n - 1)} : i \in k..Len(Catalogue)}
Lists == Bags(1, MaxEvents) \ {<<>>}
Objects(old) == {[owner |-> o, data |-> d, last |-> old.last, credits |-> 0] : o \in Owners, d \in Data}
Fresh == [owner |-> 0, data |-> 0, last |-> 0, credits |-> 0]

Init == X!Begin([a \in Addrs |-> Fresh]) /\ before = world /\ last = <<>>
One(a, es) == \E new \in Objects(world[a]) :
                /\ X!Block((a :> es), (a :> [old |-> world[a], new |-> new]))
                /\ last' = (a :> es)
Next == /\ height < MaxHeight /\ before' = world
        /\ \E a \in Addrs, es \in Lists : One(a, es)
Spec == Init /\ [][Next]_vars

Says(a, ty, o, v) == a \in DOMAIN last /\ \E i \in DOMAIN last[a] : last[a][i] = [owner |-> o, ty |-> ty, value |-> v]
Untouched == \A a \in Addrs : a \notin DOMAIN last => world[a] = before[a]
OwnerWrites == \A a \in Addrs : world[a].data # before[a].data => Says(a, "Write", before[a].owner, world[a].data)
BothAgree == \A a \in Addrs : world[a].owner # before[a].owner =>
  /\ Says(a, "GiveOwner", before[a].owner, world[a].owner)
  /\ Says(a, "TakeOwner", world[a].owner, before[a].owner)
  /\ 0 \in {world[a].owner, before[a].owner}
NeverDirect == \A a \in Addrs : before[a].owner # 0 /\ world[a].owner # 0 => before[a].owner = world[a].owner
StampsTrue == \A a \in Addrs : /\ world[a].last <= height
                               /\ (world[a] # before[a] /\ world[a].owner # 0) => world[a].last = height
ReadsTrue == \A a \in DOMAIN last : \A i \in DOMAIN last[a] :
  /\ last[a][i].ty = "Read" => last[a][i].value = before[a].data
  /\ last[a][i].ty \in {"Ensure", "Write"} => last[a][i].value = world[a].data
(* at most one new object per old object and list of events                   *)
Determined == \A a \in DOMAIN last : \A n1 \in Objects(before[a]) :
                X!Moves(last[a], before[a], n1) => n1.owner = world[a].owner /\ n1.data = world[a].data
=============================================================================
