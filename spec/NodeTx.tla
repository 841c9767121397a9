-------------------------------- MODULE NodeTx --------------------------------
(***************************************************************************)
(* The node's transaction accumulator.  A transaction is a cast of programs *)
(* and one submission from each of them, arriving in any order, interleaved *)
(* with those of other transactions.  What is accumulated is one tree of    *)
(* events per address: within a submission the balanced tree of the         *)
(* program's events, across the cast the shape of the cast tree without the *)
(* programs that have no event there, across transactions the shape of      *)
(* their completion order.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Leaf(_, _)          \* the tree of one event of an owner
VARIABLES open,              \* key |-> the submissions so far: sequence over the cast, <<>> or <<owner, events>>
          done               \* <<>>, or <<the events of the completed transactions>>

Join(l, r) == <<"n", l, r>>
NoBit(a, k) == 0
T == INSTANCE Tree WITH Bit <- NoBit, Join <- Join

(* events: functions from addresses to trees                                 *)
None == <<>>
Merge(f, g) == [a \in DOMAIN f \cup DOMAIN g |->
                  IF a \notin DOMAIN g THEN f[a] ELSE IF a \notin DOMAIN f THEN g[a] ELSE Join(f[a], g[a])]
Submitted(owner, es) ==
  LET as == {es[i].a : i \in DOMAIN es}
      At(a) == SelectSeq(es, LAMBDA e : e.a = a)
  IN [a \in as |-> T!Balanced([i \in 1..Len(At(a)) |-> Leaf(owner, At(a)[i])])]
(* the left part of the cast tree over n submissions                         *)
LeftPart(n) == CHOOSE k \in {1, 2, 4, 8, 16, 32, 64} : k < n /\ 2 * k >= n
RECURSIVE OfCast(_)
OfCast(s) == IF Len(s) = 1 THEN Submitted(s[1][1], s[1][2])
             ELSE LET k == LeftPart(Len(s))
                  IN Merge(OfCast(SubSeq(s, 1, k)), OfCast(SubSeq(s, k + 1, Len(s))))

Progress(key, n) == IF key \in DOMAIN open THEN open[key] ELSE [i \in 1..n |-> <<>>]
Invalid(key, n, index) == IF index \in 1..n THEN Progress(key, n)[index] # <<>> ELSE TRUE
Completes(key, n, index) == \A i \in 1..n : i # index => Progress(key, n)[i] # <<>>
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Submit(key, n, index, owner, es) ==
  LET p == [Progress(key, n) EXCEPT ![index] = <<owner, es>>]
  IN IF Completes(key, n, index)
     THEN /\ open' = Without(open, key)
          /\ done' = <<IF done = <<>> THEN OfCast(p) ELSE Merge(done[1], OfCast(p))>>
     ELSE open' = (key :> p) @@ open /\ UNCHANGED done
Refuse == UNCHANGED <<open, done>>
Begin == open = <<>> /\ done = <<>>
Collect == done # <<>> /\ done' = <<>> /\ UNCHANGED open
=============================================================================
