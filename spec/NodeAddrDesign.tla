--------------------------- MODULE NodeAddrDesign ---------------------------
(***************************************************************************)
(* Laws of NodeAddr over every pair of places of a small address space, and *)
(* the law the proposer relies on: merging two address tries by comparing   *)
(* their roots' places gives the trie of the union.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT W
VARIABLES x, y, sx, sy
vars == <<x, y, sx, sy>>
Pair(l, r) == <<"n", l, r>>
A == INSTANCE NodeAddr WITH Width <- W, Join <- Pair
Numbers == 0..(2 ^ W - 1)
BitsOf(v) == [i \in 1..W |-> (v \div (2 ^ (W - i))) % 2]
Places == {[h |-> h, bits |-> BitsOf(v)] : h \in 0..W, v \in Numbers}
Real == {p \in Places : \A i \in 1..W : i <= p.h => p.bits[i] = 0}

Mirror(c) == CASE c = "Equal" -> "Equal" [] c = "LeftChild" -> "LeftParent" [] c = "RightChild" -> "RightParent"
               [] c = "LeftParent" -> "LeftChild" [] c = "RightParent" -> "RightChild"
               [] c = "LeftSibling" -> "RightSibling" [] c = "RightSibling" -> "LeftSibling"
               [] c = "LeftCousin" -> "RightCousin" [] c = "RightCousin" -> "LeftCousin"
Above(p, q) == p.h >= q.h /\ A!Up(q, p.h - q.h) = p
Antisymmetric == A!Compare(y, x) = Mirror(A!Compare(x, y))
LeastAbove == LET c == A!Common(x, y) IN /\ Above(c, x) /\ Above(c, y)
                                         /\ \A d \in Real : Above(d, x) /\ Above(d, y) => Above(d, c)

(* a trie as the proposer holds it: branches know their place and children   *)
Leaf(v, who) == [at |-> [h |-> 0, bits |-> BitsOf(v)], kids |-> <<>>, val |-> <<who, v>>]
Node(l, r) == [at |-> A!Common(l.at, r.at), kids |-> <<l, r>>, val |-> <<>>]
RECURSIVE Val(_), Merge(_, _)
Val(t) == IF t.kids = <<>> THEN t.val ELSE <<"n", Val(t.kids[1]), Val(t.kids[2])>>
Merge(l, r) ==
  LET c == A!Compare(l.at, r.at) IN
  CASE c = "Equal" -> IF l.at.h = 0 THEN [l EXCEPT !.val = <<"n", Val(l), Val(r)>>]
                      ELSE [l EXCEPT !.kids = <<Merge(l.kids[1], r.kids[1]), Merge(l.kids[2], r.kids[2])>>]
    [] c = "LeftChild"   -> [l EXCEPT !.kids[1] = Merge(@, r)]
    [] c = "RightChild"  -> [l EXCEPT !.kids[2] = Merge(@, r)]
    [] c = "LeftParent"  -> [r EXCEPT !.kids[1] = Merge(l, @)]
    [] c = "RightParent" -> [r EXCEPT !.kids[2] = Merge(l, @)]
    [] c \in {"RightSibling", "RightCousin"} -> Node(l, r)
    [] OTHER -> Node(r, l)
RECURSIVE Build(_, _)
(* built by adding the leaves one by one, in ascending order                 *)
Build(S, who) == LET m == CHOOSE v \in S : \A w \in S : w <= v
                 IN IF S = {m} THEN Leaf(m, who) ELSE Merge(Build(S \ {m}, who), Leaf(m, who))
Sorted(S) == [i \in 1..Cardinality(S) |-> CHOOSE v \in S : Cardinality({w \in S : w < v}) = i - 1]
Item(v) == <<BitsOf(v), CASE v \in sx \cap sy -> <<"n", <<"x", v>>, <<"y", v>>>> [] v \in sx -> <<"x", v>> [] OTHER -> <<"y", v>>>>
MergeIsUnion == sx # {} /\ sy # {} =>
   Val(Merge(Build(sx, "x"), Build(sy, "y"))) = A!TrieOf([i \in 1..Cardinality(sx \cup sy) |-> Item(Sorted(sx \cup sy)[i])])

Init == x \in Real /\ y \in Real /\ sx = {} /\ sy = {}
Origin == [h |-> 0, bits |-> BitsOf(0)]
Next == /\ x = Origin /\ y = Origin /\ sx = {} /\ sy = {} /\ UNCHANGED <<x, y>>
        /\ sx' \in SUBSET Numbers \ {{}} /\ sy' \in SUBSET Numbers \ {{}}
Spec == Init /\ [][Next]_vars
=============================================================================
