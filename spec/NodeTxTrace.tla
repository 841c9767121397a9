----------------------------- MODULE NodeTxTrace -----------------------------
(* Recorded histories of the transaction accumulator are behaviours of       *)
(* NodeTx, and the root a completed batch proves is the address trie of the  *)
(* trees NodeTx accumulates.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Nodes == ndJsonDeserialize(IOEnv.TERMS)
VARIABLES open, done, l, bits
vars == <<open, done, l, bits>>
Ev == Trace[l]
EventLeaf(owner, e) == <<"e", owner, e>>
X == INSTANCE NodeTx WITH Leaf <- EventLeaf

TypeNumber == [Write |-> "0", Ensure |-> "1", Read |-> "2", GiveOwner |-> "3", TakeOwner |-> "4"]
IsPair(d) == Nodes[d].k = "pair"
RECURSIVE IsTree(_, _)
IsTree(d, t) ==
  IF t[1] = "e" THEN LET n == Nodes[d]
                     IN n.k = "ten" /\ n.p = t[2] /\ n.x = TypeNumber[t[3].ty] /\ n.y = t[3].a /\ n.q = t[3].value
  ELSE IsPair(d) /\ IsTree(Nodes[d].l, t[2]) /\ IsTree(Nodes[d].r, t[3])
RECURSIVE IsTrie(_, _, _)
IsTrie(d, k, f) ==
  IF Cardinality(DOMAIN f) = 1 THEN \A a \in DOMAIN f : IsTree(d, f[a])
  ELSE LET Half(b) == [a \in {x \in DOMAIN f : bits[x][k] = b} |-> f[a]]
       IN IF DOMAIN Half(0) = {} \/ DOMAIN Half(1) = {} THEN IsTrie(d, k + 1, f)
          ELSE IsPair(d) /\ IsTrie(Nodes[d].l, k + 1, Half(0)) /\ IsTrie(Nodes[d].r, k + 1, Half(1))

Init == l = 1 /\ X!Begin /\ bits = <<>>
Take(n) == l <= Len(Trace) /\ Ev.ev = n /\ l' = l + 1
New == /\ Take("begin") /\ open' = <<>> /\ done' = <<>>
       /\ bits' = [a \in {Ev.addrs[i][1] : i \in DOMAIN Ev.addrs} |->
                     Ev.addrs[CHOOSE i \in DOMAIN Ev.addrs : Ev.addrs[i][1] = a][2]]
Valid == Ev.how = "good" /\ ~X!Invalid(Ev.key, Ev.n, Ev.index)
Accepted == /\ Take("ingest") /\ UNCHANGED bits /\ Valid
            /\ Ev.got.ok /\ Ev.got.complete = X!Completes(Ev.key, Ev.n, Ev.index)
            /\ X!Submit(Ev.key, Ev.n, Ev.index, Ev.owner, Ev.events)
(* what is not valid is refused; whether by an error or by a panic of the     *)
(* proof system is not specified                                             *)
Refused == /\ Take("ingest") /\ UNCHANGED bits /\ ~Valid
           /\ ~Ev.got.ok /\ X!Refuse
Nothing == /\ Take("finalize") /\ UNCHANGED bits /\ done = <<>> /\ ~Ev.got.ok /\ ~Ev.got.panic /\ X!Refuse
Root == /\ Take("finalize") /\ UNCHANGED bits /\ X!Collect /\ Ev.got.ok
        /\ Ev.got.present = (DOMAIN done[1] # {})
        /\ (Ev.got.present => IsTrie(Ev.got.root, 1, done[1]))
Next == New \/ Accepted \/ Refused \/ Nothing \/ Root
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
