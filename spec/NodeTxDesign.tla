---------------------------- MODULE NodeTxDesign ----------------------------
(***************************************************************************)
(* Every history of small transactions: any order of submissions, resent    *)
(* and interleaved.  What is accumulated at an address is a tree of exactly *)
(* the events submitted there by completed transactions, whatever the order *)
(* of submission; of two transactions only the order of completion counts.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sizes, Addrs
SizesDef == [t1 |-> 3, t2 |-> 2, t3 |-> 5]
VARIABLES open, done, log
vars == <<open, done, log>>
EventLeaf(owner, e) == <<"e", owner, e>>
X == INSTANCE NodeTx WITH Leaf <- EventLeaf
Keys == DOMAIN Sizes
Pattern(k, i) == (* the events of the i-th program of transaction k          *)
  LET all == [a \in 1..Cardinality(Addrs) |-> [a |-> a, id |-> <<k, i>>]]
  IN SelectSeq(all \o all, LAMBDA e : (e.a + i) % 2 = 0 \/ k = "t2")

Init == X!Begin /\ log = <<>>
Send(k, i) == /\ ~X!Invalid(k, Sizes[k], i)
              /\ \A j \in DOMAIN log : log[j] # k
              /\ X!Submit(k, Sizes[k], i, <<k, i>>, Pattern(k, i))
              /\ log' = IF X!Completes(k, Sizes[k], i) THEN Append(log, k) ELSE log
Again(k, i) == X!Invalid(k, Sizes[k], i) /\ X!Refuse /\ UNCHANGED log
Next == \E k \in Keys : \E i \in 1..(Sizes[k] + 1) : Send(k, i) \/ Again(k, i)
Spec == Init /\ [][Next]_vars

RECURSIVE Leaves(_)
Leaves(t) == IF t[1] = "e" THEN <<t>> ELSE Leaves(t[2]) \o Leaves(t[3])
RECURSIVE Sent(_, _)
Sent(k, i) == IF i = 0 THEN <<>> ELSE Sent(k, i - 1) \o Pattern(k, i)
RECURSIVE AllSent(_)
AllSent(s) == IF s = <<>> THEN <<>> ELSE
   LET tagged(k) == [j \in 1..Len(Sent(k, Sizes[k])) |-> <<"e", Sent(k, Sizes[k])[j].id, Sent(k, Sizes[k])[j]>>]
   IN tagged(s[1]) \o AllSent(Tail(s))
(* the events at an address are those of the completed transactions, in the  *)
(* order of completion, then of the cast                                     *)
Complete == IF log = <<>> THEN done = <<>>
  ELSE LET at(a) == SelectSeq(AllSent(log), LAMBDA e : e[3].a = a)
       IN DOMAIN done[1] = {a \in Addrs : at(a) # <<>>} /\ \A a \in DOMAIN done[1] : Leaves(done[1][a]) = at(a)
NothingHeld == \A k \in DOMAIN open : \E i \in DOMAIN open[k] : open[k][i] = <<>>
=============================================================================
