------------------------------ MODULE NodeAddr ------------------------------
(***************************************************************************)
(* Addresses in the node's state tree: a place is a height above the leaves *)
(* and the bits of its address, most significant first; the trees built     *)
(* over lists and over addressed lists are those of module Tree.            *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Width, Join(_, _)

(* the bit of weight 2^k of an address                                       *)
BitOf(a, k) == a[Width - k]
T == INSTANCE Tree WITH Bit <- BitOf, Join <- Join

Up(x, n) == [h |-> x.h + n, bits |-> [i \in 1..Width |-> IF i <= n THEN 0 ELSE x.bits[i - n]]]
Below(a, b) == \E i \in 1..Width : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Highest(x, y) == IF x.h > y.h THEN x.h ELSE y.h
Common(x, y) ==
  LET h == Highest(x, y)
      xx == Up(x, h - x.h)
      yy == Up(y, h - y.h)
      n == CHOOSE n \in 0..Width : /\ Up(xx, n) = Up(yy, n)
                                   /\ \A m \in 0..(n - 1) : Up(xx, m) # Up(yy, m)
  IN Up(xx, n)
(* where y stands, seen from x                                               *)
Compare(x, y) ==
  LET h == Highest(x, y)
      xx == Up(x, h - x.h)
      yy == Up(y, h - y.h)
  IN IF xx = yy
     THEN IF x.h = y.h THEN "Equal"
          ELSE IF x.h > y.h THEN IF BitOf(y.bits, x.h - y.h - 1) = 0 THEN "LeftChild" ELSE "RightChild"
          ELSE IF BitOf(x.bits, y.h - x.h - 1) = 0 THEN "LeftParent" ELSE "RightParent"
     ELSE IF x.h = y.h /\ Up(x, 1) = Up(y, 1)
          THEN IF Below(x.bits, y.bits) THEN "RightSibling" ELSE "LeftSibling"
          ELSE IF Below(xx.bits, yy.bits) THEN "RightCousin" ELSE "LeftCousin"
(* the walk from the root of an address space of Len(a) bits                 *)
Dirs(a) == a
Zeros(a) == [i \in DOMAIN a |-> \A j \in i..Len(a) : a[j] = 0]

(* trees of lists: the empty list has the empty tree                         *)
TreeOf(s) == IF s = <<>> THEN <<>> ELSE T!Balanced(s)
TrieOf(s) == IF s = <<>> THEN <<>> ELSE T!Trie(s, Width - 1)
=============================================================================
