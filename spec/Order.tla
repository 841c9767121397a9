------------------------------- MODULE Order -------------------------------
(***************************************************************************)
(* Orders of byte strings, and stable sorting.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* strict lexicographic order of equally long integer sequences              *)
LexLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* order of little-endian byte strings as numbers                            *)
NumLess(a, b) == LexLess(Rev(a), Rev(b))
(* bit k (0 = least) of a little-endian byte string                          *)
BitLE(a, k) == (a[(k \div 8) + 1] \div (2 ^ (k % 8))) % 2
(* bit k (0 = least) of a number                                             *)
BitN(n, k) == (n \div (2 ^ k)) % 2

(* positions of `s` in sorted order; equal items keep their order            *)
Rank(s, j, Less(_, _)) ==
   1 + Cardinality({k \in 1..Len(s) : Less(s[k], s[j]) \/ (k < j /\ ~Less(s[j], s[k]))})
SortIndex(s, Less(_, _)) ==
   LET r == [j \in 1..Len(s) |-> Rank(s, j, Less)]
   IN [i \in 1..Len(s) |-> CHOOSE j \in 1..Len(s) : r[j] = i]
StableSort(s, Less(_, _)) == LET p == SortIndex(s, Less) IN [i \in 1..Len(s) |-> s[p[i]]]
=============================================================================
