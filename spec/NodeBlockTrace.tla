--------------------------- MODULE NodeBlockTrace ---------------------------
(* Recorded chains of blocks are behaviours of NodeBlock.  A line `match`    *)
(* says whether the node could prove that events move objects, a line        *)
(* `increment` whether it accepted a block made of completed transactions, a *)
(* match and a proof of the state's root.  An accepted block commits to the  *)
(* world its events make, and what commits to it is accepted.                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Nodes == ndJsonDeserialize(IOEnv.TERMS)
VARIABLES height, world, root, l, depth, empty, bits
vars == <<height, world, root, l, depth, empty, bits>>
Ev == Trace[l]
Zero == CHOOSE d \in DOMAIN Nodes : Nodes[d].k = "zero"
X == INSTANCE NodeBlock WITH Nobody <- Zero, Height <- ToString, Never <- "0"
EventLeaf(owner, e) == <<"e", owner, e>>
\* the transaction side is that of NodeTx
TX == INSTANCE NodeTx WITH Leaf <- EventLeaf, open <- <<>>, done <- <<>>

Bit(a, k) == bits[a][k]
(* events: addresses are in e.a                                              *)
RECURSIVE Flat(_)
Flat(subs) == IF subs = <<>> THEN <<>>
              ELSE [i \in DOMAIN subs[1].events |-> [a |-> subs[1].events[i].a, e |-> subs[1].events[i], o |-> subs[1].owner]]
                   \o Flat(Tail(subs))
(* the match side of one transaction: at each address one after the other    *)
RECURSIVE Chain(_)
Chain(s) == IF Len(s) = 1 THEN EventLeaf(s[1].o, s[1].e)
            ELSE TX!Join(Chain(SubSeq(s, 1, Len(s) - 1)), EventLeaf(s[Len(s)].o, s[Len(s)].e))
MatchOf(subs) == LET fl == Flat(subs)
                 IN [a \in {fl[i].a : i \in DOMAIN fl} |-> Chain(SelectSeq(fl, LAMBDA x : x.a = a))]
TxOf(subs) == TX!OfCast([i \in DOMAIN subs |-> <<subs[i].owner, subs[i].events>>])
RECURSIVE Merged(_)
Merged(fs) == IF Len(fs) = 1 THEN fs[1] ELSE TX!Merge(Merged(SubSeq(fs, 1, Len(fs) - 1)), fs[Len(fs)])
MatchTrees(txs) == Merged([i \in DOMAIN txs |-> MatchOf(txs[i])])
TxTrees(txs) == Merged([i \in DOMAIN txs |-> TxOf(txs[i])])
RECURSIVE Leaves(_)
Leaves(t) == IF t[1] = "e" THEN <<[owner |-> t[2], ty |-> t[3].ty, value |-> t[3].value]>>
             ELSE Leaves(t[2]) \o Leaves(t[3])
Events(trees) == [a \in DOMAIN trees |-> Leaves(trees[a])]
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in {s[i] : i \in DOMAIN s} \cup {t[i] : i \in DOMAIN t} :
                      Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})

NoObject == [owner |-> 0, last |-> "", credits |-> "", data |-> 0]
Fresh == [owner |-> Zero, last |-> "0", credits |-> "0", data |-> Zero]
Objs(list) == [a \in {list[i].a : i \in DOMAIN list} |->
                 LET x == list[CHOOSE i \in DOMAIN list : list[i].a = a] IN [old |-> x.old, new |-> x.new]]
Gone(o) == o.owner = Zero /\ o.last = "0" /\ o.credits = "0" /\ o.data = Zero
IsObj(d, o) == LET n == Nodes[d] IN n.k = "ten" /\ n.p = o.owner /\ n.x = o.last /\ n.y = o.credits /\ n.q = o.data
RECURSIVE IsRoot(_, _, _)
IsRoot(d, h, S) ==
  IF DOMAIN S = {} THEN d = empty[h + 1]
  ELSE IF h = 0 THEN \E a \in DOMAIN S : IsObj(d, S[a])
  ELSE /\ Nodes[d].k = "pair"
       /\ LET k == depth + 2 - h
              Half(b) == [a \in {x \in DOMAIN S : Bit(x, k) = b} |-> S[a]]
          IN IsRoot(Nodes[d].l, h - 1, Half(0)) /\ IsRoot(Nodes[d].r, h - 1, Half(1))
Present(f) == [a \in {x \in DOMAIN f : ~Gone(f[x])} |-> f[a]]
(* the summary speaks of exactly these addresses, from old to new            *)
RECURSIVE IsSummary(_, _, _, _)
IsSummary(d, k, objs, S) ==
  IF Cardinality(S) = 1
  THEN \E a \in S : /\ Nodes[d].k = "sum" /\ Nodes[d].a = a
                    /\ IsObj(Nodes[d].o, objs[a].old) /\ IsObj(Nodes[d].n, objs[a].new)
  ELSE LET L == {a \in S : Bit(a, k) = 0}
           R == S \ L
       IN IF L = {} \/ R = {} THEN IsSummary(d, k + 1, objs, S)
          ELSE Nodes[d].k = "pair" /\ IsSummary(Nodes[d].l, k + 1, objs, L) /\ IsSummary(Nodes[d].r, k + 1, objs, R)

Init == l = 1 /\ X!Begin(<<>>) /\ depth = 0 /\ empty = <<>> /\ bits = <<>> /\ root = 0
Take(n) == l <= Len(Trace) /\ Ev.ev = n /\ l' = l + 1
Same == UNCHANGED <<depth, empty, bits>>
Still == UNCHANGED <<height, world, root>>
New == /\ Take("begin")
       /\ depth' = Ev.depth /\ empty' = Ev.empty
       /\ bits' = [a \in {Ev.addrs[i][1] : i \in DOMAIN Ev.addrs} |->
                     Ev.addrs[CHOOSE i \in DOMAIN Ev.addrs : Ev.addrs[i][1] = a][2]]
       /\ height' = 0 /\ Ev.height = 0 /\ root' = Ev.root
       /\ world' = [a \in {Ev.addrs[i][1] : i \in DOMAIN Ev.addrs} |->
                      IF \E j \in DOMAIN Ev.world : Ev.world[j].a = a
                      THEN Ev.world[CHOOSE j \in DOMAIN Ev.world : Ev.world[j].a = a].obj ELSE Fresh]
(* the first root is that of the first world                                 *)
Start == Take("start") /\ Still /\ Same /\ IsRoot(root, depth + 1, Present(world))

MatchGood(m) == X!AllMove(Events(MatchTrees(m.txs)), Objs(m.objs))
Match == /\ Take("match") /\ Still /\ Same
         /\ Ev.ok = MatchGood(Ev)
(* a match of these events at this height, and a state proof that starts     *)
(* from the present root and moves exactly the objects matched               *)
Fits == LET t == TxTrees(Ev.txs)
            m == MatchTrees(Ev.match.txs)
            es == Events(m)
            objs == Objs(Ev.match.objs)
            moved == [a \in DOMAIN objs |->
                        [old |-> objs[a].old, new |-> X!Stamped(es[a], objs[a].old, objs[a].new, height + 1)]]
        IN /\ DOMAIN t = DOMAIN m /\ \A a \in DOMAIN t : SameBag(Leaves(t[a]), es[a])
           /\ Ev.match.height = height + 1
           /\ Ev.state.old = root
           /\ Ev.state.sp /\ IsSummary(Ev.state.sum, 1, moved, DOMAIN moved)
(* known finding "same-address-order": transactions and match build the tree *)
(* of several events at one address in different shapes                      *)
OtherShape == /\ IOEnv.KNOWN_SAME_ADDRESS_ORDER = "1" /\ TxTrees(Ev.txs) # MatchTrees(Ev.match.txs)
              /\ PrintT("KNOWN {same-address-order}")
Accepted == /\ Take("increment") /\ Same /\ Ev.ok /\ Fits
            /\ X!Block(Events(MatchTrees(Ev.match.txs)), Objs(Ev.match.objs))
            /\ Ev.height = height'
            /\ root' = Ev.state.new
            /\ IsRoot(root', depth + 1, Present(world'))
Refused == /\ Take("increment") /\ Same /\ ~Ev.ok
           /\ IF Fits THEN OtherShape ELSE TRUE
           /\ Ev.height = height /\ Still
Next == New \/ Start \/ Match \/ Accepted \/ Refused
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
