--------------------------- MODULE NodeStateTrace ---------------------------
(* Recorded histories of the node's state tree are behaviours of NodeState, *)
(* and every proof of its root speaks of the same state: the old and the    *)
(* new root are full-depth trees of the objects' hashes, the summary is the *)
(* address trie of (address, old, new) over the addresses touched.          *)
(* Digests are numbers; Nodes[d] says what d is the hash of.                *)
EXTENDS NodeState, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Nodes == ndJsonDeserialize(IOEnv.TERMS)
VARIABLES l, depth, empty, bits
vars == <<objs, req, l, depth, empty, bits>>
Ev == Trace[l]

Bit(a, k) == bits[a][k]
IsObj(d, o) == IF o = None THEN d = empty[1]
  ELSE LET n == Nodes[d] IN n.k = "ten" /\ n.p = o.owner /\ n.x = o.last /\ n.y = o.credits /\ n.q = o.data
(* d is the root of the tree of height h over the objects S                  *)
RECURSIVE IsRoot(_, _, _)
IsRoot(d, h, S) ==
  IF DOMAIN S = {} THEN d = empty[h + 1]
  ELSE IF h = 0 THEN \E a \in DOMAIN S : IsObj(d, S[a])
  ELSE /\ Nodes[d].k = "pair"
       /\ LET k == depth + 2 - h
              Half(b) == [a \in {x \in DOMAIN S : Bit(x, k) = b} |-> S[a]]
          IN IsRoot(Nodes[d].l, h - 1, Half(0)) /\ IsRoot(Nodes[d].r, h - 1, Half(1))
Present(f) == [a \in {x \in DOMAIN f : f[x] # None} |-> f[a]]
OldMap == objs
NewMap == [a \in DOMAIN objs |-> New(a)]
RECURSIVE IsSummary(_, _, _)
IsSummary(d, k, S) ==
  IF Cardinality(S) = 1
  THEN \E a \in S : /\ Nodes[d].k = "sum" /\ Nodes[d].a = a
                    /\ IsObj(Nodes[d].o, Old(a)) /\ IsObj(Nodes[d].n, New(a))
  ELSE LET L == {a \in S : Bit(a, k) = 0}
           R == S \ L
       IN IF L = {} \/ R = {} THEN IsSummary(d, k + 1, S)
          ELSE Nodes[d].k = "pair" /\ IsSummary(Nodes[d].l, k + 1, L) /\ IsSummary(Nodes[d].r, k + 1, R)
Speaks(r) == IF r = <<>> THEN Touched = {} /\ DOMAIN Present(OldMap) = {}    \* nothing proved yet
  ELSE /\ IsRoot(r[1].old, depth + 1, Present(OldMap))
       /\ IsRoot(r[1].new, depth + 1, Present(NewMap))
       /\ r[1].sp = (Touched # {}) /\ r[1].ap = r[1].sp
       /\ (r[1].sp => IsSummary(r[1].sum, 1, Touched))

(* known finding "field-address": the tree cannot touch an address above p-2  *)
FieldAddress(a) == /\ IOEnv.KNOWN_FIELD_ADDRESS = "1"
                   /\ depth = 63 /\ \A k \in 1..32 : Bit(a, k) = 1
                   /\ PrintT("KNOWN {field-address}")

Init == l = 1 /\ Begin({}) /\ depth = 0 /\ empty = <<>> /\ bits = <<>>
Take(n) == l <= Len(Trace) /\ Ev.ev = n /\ l' = l + 1
Same == UNCHANGED <<depth, empty, bits>>
New0 == /\ Take("begin")
        /\ depth' = Ev.depth /\ empty' = Ev.empty
        /\ bits' = [a \in {Ev.addrs[i][1] : i \in DOMAIN Ev.addrs} |->
                      Ev.addrs[CHOOSE i \in DOMAIN Ev.addrs : Ev.addrs[i][1] = a][2]]
        /\ LET as == {Ev.addrs[i][1] : i \in DOMAIN Ev.addrs}
           IN objs' = [a \in as |-> None] /\ req' = [a \in as |-> Ask("no")]
        /\ Len(Ev.empty) = Ev.depth + 2
        /\ LET n == Nodes[Ev.empty[1]] IN n.k = "ten" /\ n.x = "0" /\ n.y = "0" /\ Nodes[n.p].k = "zero" /\ Nodes[n.q].k = "zero"
        /\ \A i \in 1..(Ev.depth + 1) : LET n == Nodes[Ev.empty[i + 1]] IN n.k = "pair" /\ n.l = Ev.empty[i] /\ n.r = Ev.empty[i]
Asked == /\ Take("apply") /\ Ev.ok /\ Same /\ Apply(Ev.a, Ev.what)
Answer == /\ Take("root") /\ Same /\ UNCHANGED <<objs, req>> /\ Speaks(Ev.root)
Turned == /\ Take("apply") /\ ~Ev.ok /\ Same /\ UNCHANGED <<objs, req>> 
          /\ Refused(Ev.a, Ev.what) \/ FieldAddress(Ev.a)
Get == /\ Take("get") /\ Same /\ UNCHANGED <<objs, req>>
       /\ Ev.old = Old(Ev.a) /\ Ev.new = New(Ev.a)
Close == Take("finalize") /\ Ev.ok /\ Same /\ Finalize
Next == New0 \/ Asked \/ Turned \/ Answer \/ Get \/ Close
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter - 1 = Len(Trace)
NoObject == [owner |-> 0, last |-> "", credits |-> "", data |-> 0]
=============================================================================
