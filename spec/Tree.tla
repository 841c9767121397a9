-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* The canonical Merkle tree of addressed leaves.  Bit(a, k) is bit k of    *)
(* address a, Join(l, r) the hash of two nodes.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Bit(_, _), Join(_, _)

RECURSIVE PairUp(_), Balanced(_)
(* one round of joining neighbours, an odd one out is kept                   *)
PairUp(s) == IF Len(s) < 2 THEN s ELSE <<Join(s[1], s[2])>> \o PairUp(SubSeq(s, 3, Len(s)))
(* the left-full binary tree over a non-empty sequence                       *)
Balanced(s) == IF Len(s) = 1 THEN s[1] ELSE Balanced(PairUp(s))

(* leaves <<address, node>>, split at bit `b` of the address (0-side left),  *)
(* unary levels skipped, leaves of one address joined pairwise in order.     *)
RECURSIVE Trie(_, _)
Trie(leaves, b) ==
   IF Len(leaves) = 1 THEN leaves[1][2]
   ELSE IF b < 0 THEN Balanced([i \in 1..Len(leaves) |-> leaves[i][2]])
   ELSE LET zero == SelectSeq(leaves, LAMBDA x : Bit(x[1], b) = 0)
            one  == SelectSeq(leaves, LAMBDA x : Bit(x[1], b) = 1)
        IN IF zero = <<>> THEN Trie(one, b - 1)
           ELSE IF one = <<>> THEN Trie(zero, b - 1)
           ELSE Join(Trie(zero, b - 1), Trie(one, b - 1))
=============================================================================
