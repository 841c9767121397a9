---------------------------- MODULE ProofsDesign ----------------------------
(***************************************************************************)
(* Why the circuits' local rules suffice.  Each circuit relates its claim to *)
(* the claims of the (at most two) proofs it verifies; Proofs says what a    *)
(* claim means for all the events below it.  Checked here, for all small     *)
(* claims: if the verified claims are meaningful, the circuit's rule holds   *)
(* exactly of the meaningful claims.  By induction all proofs are            *)
(* meaningful, and every meaningful claim can be proved, in trees of any     *)
(* size.  Digests are their own terms.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Field, TLC
CONSTANTS N,      \* events in one claim
          Goal    \* "acc", "match" or "merge"
VARIABLES at, es, l, r, c

Z4 == Zero4
One == <<1, 0, 0, 0>>
Two == <<2, 0, 0, 0>>
Big == <<0, 0, 256, 0>>
Raw(n, w) == [k |-> "raw", n |-> n, w |-> w]
Zero == [k |-> "zero", n |-> 0, w |-> <<Z4, Z4, Z4, Z4>>]
V1 == Raw(1, <<One, Z4, Z4, One>>)   \* also the value of a credit event: minus one
V2 == Raw(2, <<Two, Z4, Z4, Z4>>)    \* plus two
V3 == Raw(3, <<One, Z4, Z4, Two>>)   \* of no sign
V4 == Raw(4, <<Big, Z4, Z4, Z4>>)    \* more than can be moved
D == {Zero, V1}
Ten(p, x, y, q) == [k |-> "ten", p |-> p, x |-> x, y |-> y, q |-> q, yw |-> Z4]
EventsU == {Ten(p, x, "7", q) : p \in D, x \in {"0", "1", "2", "3", "4"}, q \in D}
           \cup {Ten(p, "5", "7", q) : p \in D, q \in {Zero, V1, V2, V3, V4}}
           \cup {Ten(V1, "0", "8", V1), Ten(V1, "6", "7", V1)}
Id(d) == d
No(name) == FALSE
PR == INSTANCE Proofs WITH Node <- Id, Excused <- No

(* ------------------------------------------------ the rules of the circuits *)
Bit(f, n) == (f \div n) % 2
B(b) == IF b THEN 1 ELSE 0
Is(e, x) == e.x = x
Maybe(cond, x, y) == cond => x = y
AccLeaf(e, p) ==
  LET w == Is(e, "0")
      n == Is(e, "1")
      rd == Is(e, "2")
      g == Is(e, "3")
      t == Is(e, "4")
      cr == Is(e, "5")
      val == IF cr THEN e.q.w[1] ELSE Z4
      sign == IF cr THEN e.q.w[4] ELSE Z4
  IN /\ p.h = e /\ p.a = e.y
     /\ p.fl = B(w) + 2 * B(n) + 4 * B(rd) + 8 * B(g) + 16 * B(t)
     /\ Maybe(w \/ g \/ cr, p.oo, e.p) /\ Maybe(t, p.oo, e.q)
     /\ Maybe(t, p.no, e.p) /\ Maybe(g, p.no, e.q)
     /\ Maybe(rd, p.od, e.q) /\ Maybe(w \/ n, p.nd, e.q)
     /\ val[3] < 256 /\ val[4] = 0 /\ sign \in {Z4, One}
     /\ p.cd = IF sign = Z4 THEN val ELSE Neg(val)
AccBranch(x, yy, p) ==
  LET y == IF yy = <<>> THEN [x EXCEPT !.fl = 0, !.cd = Z4] ELSE yy[1]
      Own(q) == Bit(q.fl, 8) + Bit(q.fl, 16) # 0
      Old(q) == Own(q) \/ Bit(q.fl, 1) = 1
      New(q) == Bit(q.fl, 1) + Bit(q.fl, 2) # 0
      Rd(q) == Bit(q.fl, 4) = 1
  IN /\ p.h = IF yy = <<>> THEN x.h ELSE [k |-> "pair", l |-> x.h, r |-> y.h]
     /\ p.a = x.a /\ p.a = y.a
     /\ \A n \in {1, 8, 16} : Bit(p.fl, n) = Bit(x.fl, n) + Bit(y.fl, n)
     /\ \A n \in {2, 4} : Bit(p.fl, n) = B(Bit(x.fl, n) + Bit(y.fl, n) # 0)
     /\ \A q \in {x, y} : /\ Maybe(Old(q), p.oo, q.oo) /\ Maybe(Own(q), p.no, q.no)
                          /\ Maybe(Rd(q), p.od, q.od) /\ Maybe(New(q), p.nd, q.nd)
     /\ p.cd = Add(x.cd, y.cd)
MatchLeaf(p, old, new, s, ht) ==
  LET give == Bit(p.fl, 8) = 1
      take == Bit(p.fl, 16) = 1
      write == Bit(p.fl, 1) = 1
      mode == B(old.p = Zero) + B(new.p = Zero)
      updated == give \/ write \/ old.yw # new.yw
  IN /\ give = take
     /\ old.q = new.q \/ write
     /\ mode + B(old.p = new.p) = 1 /\ mode = B(give)
     /\ Maybe(write \/ give \/ take, old.p, p.oo) /\ Maybe(give \/ take, new.p, p.no)
     /\ Maybe(Bit(p.fl, 4) = 1, old.q, p.od) /\ Maybe(write \/ Bit(p.fl, 2) = 1, new.q, p.nd)
     /\ Add(new.yw, Neg(old.yw)) = p.cd
     /\ s = [k |-> "sum", a |-> p.a, o |-> old,
             n |-> [new EXCEPT !.x = IF new.p = Zero THEN "0" ELSE IF updated THEN ht ELSE old.x]]
(* two bags of hashes to one: the left and the right one are joined, or the   *)
(* one that is there is passed on                                            *)
MergeLeaf(p) == /\ p.mp = (p.ap \/ p.bp)
                /\ p.m = CASE p.ap /\ p.bp -> [k |-> "pair", l |-> p.a, r |-> p.b]
                           [] p.ap -> p.a [] p.bp -> p.b [] OTHER -> Zero
                /\ (~p.ap => p.a = Zero) /\ (~p.bp => p.b = Zero)
Join(xp, x, yp, y) == IF xp /\ yp THEN [k |-> "pair", l |-> x, r |-> y] ELSE IF xp THEN x ELSE IF yp THEN y ELSE Zero
MergeBranch(x, y, p) ==
  /\ p.ap = (x.ap \/ y.ap) /\ p.a = Join(x.ap, x.a, y.ap, y.a)
  /\ p.bp = (x.bp \/ y.bp) /\ p.b = Join(x.bp, x.b, y.bp, y.b)
  /\ p.mp = (x.mp \/ y.mp) /\ p.m = Join(x.mp, x.m, y.mp, y.m)

(* --------------------------------------------------------------- all of them *)
RECURSIVE Comb(_)
Comb(s) == IF Len(s) = 1 THEN s[1] ELSE [k |-> "pair", l |-> s[1], r |-> Comb(Tail(s))]
Claim(s, fl, cd, oo, no, od, nd) == [h |-> Comb(s), a |-> s[1].y, fl |-> fl, oo |-> oo, no |-> no, od |-> od, nd |-> nd, cd |-> cd]
Meant(s) == PR!Events(s)
(* the claims about events `s`: what the events determine, and other values   *)
Claims(s, fls, cds) == {Claim(s, fl, cd, oo, no, od, nd) : fl \in fls, cd \in cds, oo \in D, no \in D, od \in D, nd \in D}
Meaningful(s) == {p \in Claims(s, {PR!Flags(Meant(s))}, {PR!Credits(Meant(s))}) : PR!Accumulated(p)}
Seqs(n) == UNION {[1..i -> EventsU] : i \in 1..n}
Objects(f) == {Ten(p, "3", f, q) : p \in {Zero, V1, V2}, q \in D}
Moneyed(o, n) == [o EXCEPT !.yw = n, !.y = ToString(n)]
Hashes == {V1, V2}
Bags == {[p |-> FALSE, h |-> Zero]} \cup {[p |-> TRUE, h |-> h] : h \in Hashes}
MergeLeaves == {p \in {[ap |-> a.p, a |-> a.h, bp |-> b.p, b |-> b.h, mp |-> mp, m |-> m] :
                  a \in Bags, b \in Bags, mp \in BOOLEAN,
                  m \in Hashes \cup {Zero} \cup {[k |-> "pair", l |-> x, r |-> y] : x \in Hashes, y \in Hashes}} : TRUE}

nothing == <<>>
Wrong(x) == IF N = 1 THEN {x} ELSE {}
Init == /\ at = "start" /\ r = nothing /\ c = nothing /\ l = nothing
        /\ es \in CASE Goal = "acc" -> Seqs(N) [] Goal = "match" -> Seqs(N) [] Goal = "merge" -> {<<>>}
Leaf == /\ Goal = "acc" /\ at = "start" /\ Len(es) = 1 /\ at' = "leaf" /\ UNCHANGED <<es, l, r>>
        /\ c' \in Claims(es, {PR!Flags(Meant(es)), 0, 31}, {PR!Credits(Meant(es)), Z4, Two})
Left == /\ Goal = "acc" /\ at = "start" /\ at' = "left" /\ UNCHANGED <<es, r, c>>
        /\ l' \in Meaningful(es)
Branch == /\ Goal = "acc" /\ at = "left" /\ at' = "branch" /\ UNCHANGED <<es, l>>
          /\ \/ /\ r' = <<>>
                /\ c' \in Claims(es, {l.fl}, {l.cd})
             \/ \E e \in EventsU, swap \in BOOLEAN : \E y \in Meaningful(<<e>>) :
                  /\ r' = <<[s |-> <<e>>, p |-> y, swap |-> swap]>>
                  /\ LET both == es \o <<e>>
                         h == IF swap THEN [k |-> "pair", l |-> e, r |-> l.h] ELSE [k |-> "pair", l |-> l.h, r |-> e]
                         sum == PR!Flags(Meant(both))
                     IN c' \in {[p EXCEPT !.h = h] : p \in Claims(both, {sum} \cup Wrong(l.fl), {PR!Credits(Meant(both))} \cup Wrong(l.cd))}
(* the numbers of an object's credits: none, one, two, and the last element   *)
Match == /\ Goal = "match" /\ at = "start" /\ at' = "match" /\ UNCHANGED <<es, r>>
         /\ l' \in Meaningful(es)
         /\ \E o \in Objects("0"), n \in Objects("0"), x \in {Z4, One, Two}, d \in {Z4, One, PR!Credits(Meant(es))}, st \in {"3", "9", "0"} :
              LET old == Moneyed(o, x)
                  new == Moneyed(n, Add(x, d))
              IN c' = [old |-> old, new |-> new, s |-> [k |-> "sum", a |-> "7", o |-> old, n |-> [new EXCEPT !.x = st]]]
Merge1 == /\ Goal = "merge" /\ at = "start" /\ at' = "mleaf" /\ UNCHANGED <<es, l, r>> /\ c' \in MergeLeaves
Merge2 == /\ Goal = "merge" /\ at = "start" /\ at' = "mleft" /\ UNCHANGED <<es, r, c>>
          /\ l' \in {p \in MergeLeaves : PR!Merged(p)}
Merge3 == /\ at = "mleft" /\ at' = "mbranch" /\ UNCHANGED <<es, l>>
          /\ \E y \in {p \in MergeLeaves : PR!Merged(p)} :
               /\ r' = y
               /\ c' = [ap |-> l.ap \/ y.ap, a |-> Join(l.ap, l.a, y.ap, y.a), bp |-> l.bp \/ y.bp, b |-> Join(l.bp, l.b, y.bp, y.b),
                        mp |-> l.mp \/ y.mp, m |-> Join(l.mp, l.m, y.mp, y.m)]
Next == Leaf \/ Left \/ Branch \/ Match \/ Merge1 \/ Merge2 \/ Merge3
Spec == Init /\ [][Next]_<<at, es, l, r, c>>

(* a leaf of a credit event names its owner, too, but no branch asks          *)
LeafRight == at = "leaf" => (AccLeaf(es[1], c) <=> (PR!Accumulated(c) /\ Maybe(es[1].x = "5", c.oo, es[1].p)))
BranchRight == at = "branch" => ((IF r = <<>> THEN AccBranch(l, <<>>, c)
                                  ELSE IF r[1].swap THEN AccBranch(r[1].p, <<l>>, c) ELSE AccBranch(l, <<r[1].p>>, c))
                                 <=> PR!Accumulated(c))
(* the owner of a credit event is lost on the way (a recorded finding), and   *)
(* credits wrap around (another)                                             *)
Lax(name) == TRUE
Q == INSTANCE Proofs WITH Node <- Id, Excused <- Lax
MatchRight == at = "match" => (MatchLeaf(l, c.old, c.new, c.s, "9") <=> Q!Moved(c.s, l.h, "9"))
(* what the recorded findings let through, and nothing else                   *)
MatchStrict == at = "match" /\ MatchLeaf(l, c.old, c.new, c.s, "9") /\ (\A i \in DOMAIN es : es[i].x # "5") => PR!Moved(c.s, l.h, "9")
MergeRight == /\ at = "mleaf" /\ MergeLeaf(c) => PR!Merged(c)
              /\ at = "mbranch" => MergeBranch(l, r, c) /\ PR!Merged(c)
=============================================================================
