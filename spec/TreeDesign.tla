----------------------------- MODULE TreeDesign -----------------------------
(***************************************************************************)
(* Exhaustive check, on symbolic hashes, that the level-by-level algorithms *)
(* used by the SDK and the node (merge equal neighbours, then shift the    *)
(* addresses) build the declarative canonical tree Trie, and that it       *)
(* depends only on the multiset of leaves.                                 *)
(***************************************************************************)
EXTENDS Order, TLC
CONSTANTS Bits, MaxLeaves
VARIABLE leaves

Addrs == 0..(2 ^ Bits - 1)
Join(l, r) == <<"n", l, r>>
Bit(a, k) == BitN(a, k)
T == INSTANCE Tree
Balanced(s) == T!Balanced(s)
Declared(s) == T!Trie(s, Bits - 1)

(* one pass: groups of equal neighbours collapse to their balanced tree      *)
RECURSIVE Groups(_)
Groups(s) == IF s = <<>> THEN <<>>
   ELSE LET k == CHOOSE k \in 1..Len(s) : (\A i \in 1..k : s[i][1] = s[1][1])
                                       /\ (k = Len(s) \/ s[k + 1][1] # s[1][1])
        IN <<<<s[1][1], Balanced([i \in 1..k |-> s[i][2]])>>>> \o Groups(SubSeq(s, k + 1, Len(s)))
RECURSIVE ByShifts(_)
ByShifts(s) == IF Len(s) = 1 THEN s[1][2]
   ELSE ByShifts([i \in 1..Len(Groups(s)) |-> <<Groups(s)[i][1] \div 2, Groups(s)[i][2]>>])
(* the SDK: neighbours pair up once per pass, shift by the least height at   *)
(* which unmerged neighbours can meet                                        *)
Log(x) == IF x = 0 THEN 0 ELSE CHOOSE k \in 1..Bits : x >= 2 ^ (k - 1) /\ x < 2 ^ k
RECURSIVE XorN(_, _, _)
XorN(a, b, k) == IF k < 0 THEN 0 ELSE (IF Bit(a, k) # Bit(b, k) THEN 2 ^ k ELSE 0) + XorN(a, b, k - 1)
RECURSIVE OnePass(_)
OnePass(s) == IF Len(s) < 2 THEN s
   ELSE IF s[1][1] = s[2][1] THEN <<<<s[1][1], Join(s[1][2], s[2][2])>>>> \o OnePass(SubSeq(s, 3, Len(s)))
   ELSE <<s[1]>> \o OnePass(Tail(s))
RECURSIVE BySteps(_)
BySteps(s) == IF Len(s) = 1 THEN s[1][2]
   ELSE LET t == OnePass(s)
            hs == {Log(XorN(t[i][1], t[i + 1][1], Bits - 1)) : i \in 1..(Len(t) - 1)}
            h == IF hs = {} THEN 0 ELSE CHOOSE x \in hs : \A y \in hs : x <= y
        IN BySteps([i \in 1..Len(t) |-> <<t[i][1] \div (2 ^ h), t[i][2]>>])

Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
Init == leaves = <<>>
Next == /\ Len(leaves) < MaxLeaves
        /\ \E a \in Addrs : leaves' = Append(leaves, <<a, <<"leaf", a, Cardinality({i \in 1..Len(leaves) : leaves[i][1] = a})>>>>)
Spec == Init /\ [][Next]_leaves
SortedLeaves == StableSort(leaves, LAMBDA x, y : x[1] < y[1])
ShiftsAgree == leaves # <<>> => ByShifts(SortedLeaves) = Declared(SortedLeaves)
StepsAgree  == leaves # <<>> => BySteps(SortedLeaves) = Declared(SortedLeaves)
SortIsSorted == Sorted(SortedLeaves)
(* arrival order matters only among equal addresses                          *)
OrderFree == leaves # <<>> => Declared(leaves) = Declared(SortedLeaves)
=============================================================================
