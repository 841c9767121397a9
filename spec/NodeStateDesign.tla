--------------------------- MODULE NodeStateDesign ---------------------------
(***************************************************************************)
(* The sparse tree the node keeps, on symbolic hashes: branches exist only  *)
(* where something was touched or lives, every branch caches what its proof *)
(* says (old root, new root, summary), and closing a block prunes and       *)
(* brings up to date only what changed.  Checked exhaustively: the caches   *)
(* always say what NodeState says, in every history.                        *)
(***************************************************************************)
EXTENDS NodeState, FiniteSets, TLC
CONSTANTS Bits, Objects
VARIABLE tree
vars == <<objs, req, tree>>
Addrs == 0..(2 ^ Bits - 1)
Bit(a, k) == (a \div (2 ^ k)) % 2

(* what NodeState says                                                       *)
Hash(o) == <<"o", o>>
RECURSIVE Root(_, _, _)
Root(f, h, a) == IF h = 0 THEN Hash(f[a]) ELSE <<"n", Root(f, h - 1, 2 * a), Root(f, h - 1, 2 * a + 1)>>
SumJoin(l, r) == IF l = <<>> THEN r ELSE IF r = <<>> THEN l ELSE <<"n", l, r>>
RECURSIVE Summary(_, _)
Summary(h, a) == IF h = 0 THEN IF a \in Touched THEN <<"s", a, Hash(Old(a)), Hash(New(a))>> ELSE <<>>
                 ELSE SumJoin(Summary(h - 1, 2 * a), Summary(h - 1, 2 * a + 1))
Means(h, a) == [old |-> Root([x \in Addrs |-> Old(x)], h, a), new |-> Root([x \in Addrs |-> New(x)], h, a), sum |-> Summary(h, a)]

(* the tree: places <<height, address>> that exist, with their cached claims *)
EmptyClaim(h) == LET e == Root([x \in Addrs |-> None], h, 0) IN [old |-> e, new |-> e, sum |-> <<>>]
Claim(t, p) == IF p \in DOMAIN t THEN t[p] ELSE EmptyClaim(p[1])
Combine(t, p) == LET l == Claim(t, <<p[1] - 1, 2 * p[2]>>)
                     r == Claim(t, <<p[1] - 1, 2 * p[2] + 1>>)
                 IN [old |-> <<"n", l.old, r.old>>, new |-> <<"n", l.new, r.new>>, sum |-> SumJoin(l.sum, r.sum)]
LeafClaim(a, o, r) == [old |-> Hash(o), new |-> Hash(CASE r.op = "delete" -> None [] r.op = "write" -> r.obj [] OTHER -> o),
                       sum |-> IF r.op = "no" THEN <<>> ELSE <<"s", a, Hash(o), Hash(CASE r.op = "delete" -> None [] r.op = "write" -> r.obj [] OTHER -> o)>>]
(* bring the branches above a leaf up to date                                *)
RECURSIVE Climb(_, _, _)
Climb(t, h, a) == IF h > Bits THEN t
                  ELSE Climb((<<h, a>> :> Combine(t, <<h, a>>)) @@ t, h + 1, a \div 2)
Ask1(a, what) == /\ Apply(a, what)
                 /\ tree' = IF req'[a] = req[a] THEN tree
                            ELSE Climb((<<0, a>> :> LeafClaim(a, objs[a], req'[a])) @@ tree, 1, a \div 2)
(* closing: the outcome of a place is "prune", "recalc" or "noop"            *)
RECURSIVE Close(_, _)
Close(t, p) ==
  IF p \notin DOMAIN t THEN [t |-> t, out |-> "prune"]
  ELSE IF p[1] = 0 THEN
     LET a == p[2] IN
     IF req[a].op = "no" THEN [t |-> t, out |-> "noop"]
     ELSE IF New(a) = None THEN [t |-> [q \in DOMAIN t \ {p} |-> t[q]], out |-> "prune"]
     ELSE [t |-> [t EXCEPT ![p] = [old |-> Hash(New(a)), new |-> Hash(New(a)), sum |-> <<>>]], out |-> "recalc"]
  ELSE LET lp == <<p[1] - 1, 2 * p[2]>>
           rp == <<p[1] - 1, 2 * p[2] + 1>>
           l == Close(t, lp)
           r == Close(l.t, rp)
           lost == {lp, rp} \cap DOMAIN t # {lp, rp} \cap DOMAIN r.t
           out == IF "recalc" \in {l.out, r.out} THEN "recalc"
                  ELSE IF "noop" \in {l.out, r.out} THEN (IF lost THEN "recalc" ELSE "noop")
                  ELSE "prune"
       IN [out |-> out,
           t |-> IF out = "recalc" THEN [r.t EXCEPT ![p] = Combine(r.t, p)]
                 ELSE IF out = "prune" THEN [q \in DOMAIN r.t \ {p} |-> r.t[q]]
                 ELSE r.t]
CloseAll == /\ Finalize
            /\ tree' = LET c == Close(tree, <<Bits, 0>>)
                       IN IF c.out = "prune" THEN (<<Bits, 0>> :> EmptyClaim(Bits)) @@ c.t ELSE c.t

Init == Begin(Addrs) /\ tree = (<<Bits, 0>> :> EmptyClaim(Bits))
Requests == {[op |-> "read"], [op |-> "delete"]} \cup {[op |-> "upsert", obj |-> o] : o \in Objects}
Next == CloseAll \/ \E a \in Addrs, w \in Requests : Ask1(a, w)
Spec == Init /\ [][Next]_vars

RootSpeaks == tree[<<Bits, 0>>] = Means(Bits, 0)
AllSpeak == \A p \in DOMAIN tree : tree[p] = Means(p[1], p[2])
Sparse == \A a \in Addrs : <<0, a>> \notin DOMAIN tree => objs[a] = None /\ req[a].op = "no"
(* a request is refused only if it contradicts one made before               *)
OrderOfRequests == \A a \in Addrs : req[a].op = "write" => ~Refused(a, [op |-> "upsert", obj |-> req[a].obj]) /\ ~Refused(a, [op |-> "read"])
=============================================================================
