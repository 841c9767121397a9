------------------------------- MODULE Hashed -------------------------------
(***************************************************************************)
(* Digests the code computes, from the table of what was hashed.           *)
(* tab: <<[inp |-> bytes, out |-> 32 bytes], ...>>                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Order
CONSTANT tab
Unknown == [i \in 1..32 |-> -1]
Lookup(inp) == LET m == {i \in DOMAIN tab : tab[i].inp = inp}
               IN IF m = {} THEN Unknown ELSE tab[CHOOSE i \in m : TRUE].out
Zeros(n) == [i \in 1..n |-> 0]
Pad(d) == LET n == Len(d) + 1 IN d \o <<1>> \o Zeros((8 - (n % 8)) % 8)
JoinHash(l_, r_) == IF l_ = Unknown \/ r_ = Unknown THEN Unknown ELSE Lookup(l_ \o r_)
T == INSTANCE Tree WITH Bit <- BitLE, Join <- JoinHash
Root(leaves) == IF leaves = <<>> THEN Zeros(32) ELSE T!Trie(leaves, 63)
TypeRank(t) == CASE t = "Write" -> 0 [] t = "Ensure" -> 1 [] t = "Read" -> 2
                 [] t = "GiveOwner" -> 3 [] t = "TakeOwner" -> 4
Canon(e) == [addr |-> e.addr, type |-> e.type, value |-> Lookup(Pad(e.data))]
EventHash(c) == Lookup(<<TypeRank(c.type)>> \o Zeros(7) \o c.addr \o c.value)
EventRoot(cs) == Root([i \in DOMAIN cs |-> <<cs[i].addr, EventHash(cs[i])>>])
(* ids: the 32-byte identifiers, in increasing order, at addresses 0, 1, ... *)
Index(n) == <<n % 256, (n \div 256) % 256, 0, 0, 0, 0, 0, 0>>
CastRoot(ids) == LET s == StableSort(ids, LexLess) IN Root([i \in DOMAIN s |-> <<Index(i - 1), s[i]>>])
=============================================================================
