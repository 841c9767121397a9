------------------------------- MODULE Proofs -------------------------------
(***************************************************************************)
(* What the proofs of the node say.  A proof is a claim [kind, p] with the   *)
(* claims of the proofs verified inside (`kids`).  Meaning(c, kids) is what  *)
(* must be true of everything that can be proved, whoever the prover is.     *)
(* Digests are numbers; Node(d) says what d is the hash of:                  *)
(*   "ten"  an event (p owner, x type, y address, q value) or an object      *)
(*          (p owner, x stamp, y credits, q data)                            *)
(*   "pair" of two digests, "sum" of an address, an old and a new object     *)
(*   "bpair", "bev": a pair and an event as the virtual machine hashes them  *)
(* A claim that names another circuit than the node's for its recursion is   *)
(* void: nothing may rest on it.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Field
CONSTANTS Node(_), Zero, Excused(_)
N == INSTANCE NodeBlock WITH Nobody <- Zero, Never <- "0", Height <- Node, height <- 0, world <- 0

RECURSIVE Leaves(_)
Leaves(d) == IF Node(d).k = "pair" THEN Leaves(Node(d).l) \o Leaves(Node(d).r) ELSE <<d>>
Range(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) : Count(s, x) = Count(t, x)
Bag(present, d) == IF present THEN Leaves(d) ELSE <<>>

Is(d, k) == Node(d).k = k
Types == <<"Write", "Ensure", "Read", "GiveOwner", "TakeOwner", "Credit">>
Codes == <<"0", "1", "2", "3", "4", "5">>
TypeOf(d) == LET i == {j \in 1..6 : Codes[j] = Node(d).x} IN IF i = {} THEN "none" ELSE Types[CHOOSE j \in i : TRUE]
Event(d) == [owner |-> Node(d).p, ty |-> TypeOf(d), value |-> Node(d).q]
Events(s) == [i \in DOMAIN s |-> Event(s[i])]
EventAt(d, a) == Is(d, "ten") /\ Node(d).y = a
Flag(es, ty, n) == IF N!Of(es, ty) = {} THEN 0 ELSE n
Flags(es) == Flag(es, "Write", 1) + Flag(es, "Ensure", 2) + Flag(es, "Read", 4) + Flag(es, "GiveOwner", 8) + Flag(es, "TakeOwner", 16)
(* credits: the first element of the value is the amount, the last the sign  *)
Credit(e) == LET w == Node(e.value).w IN IF w[4] = Zero4 THEN w[1] ELSE Neg(w[1])
RECURSIVE Credits(_)
Credits(es) == IF es = <<>> THEN Zero4
               ELSE LET rest == Credits(Tail(es)) IN IF es[1].ty = "Credit" THEN Add(Credit(es[1]), rest) ELSE rest
(* the same without wrapping: what is gained and what is spent               *)
Wide(a, b) == Carry(a, b, 0)
RECURSIVE Amounts(_, _)
Amounts(es, spent) ==
  IF es = <<>> THEN Zero4
  ELSE LET rest == Amounts(Tail(es), spent)
       IN IF es[1].ty = "Credit" /\ (Node(es[1].value).w[4] # Zero4) = spent
          THEN SubSeq(Wide(Node(es[1].value).w[1], rest), 1, 4) ELSE rest
Credible(e) == LET w == Node(e.value).w IN w[4] \in {Zero4, <<1, 0, 0, 0>>} /\ w[1][4] = 0 /\ w[1][3] < 256

(* accumulated events at one address                                        *)
Accumulated(p) ==
  LET s == Leaves(p.h)
      es == Events(s)
      Each(ty, Q(_)) == \A i \in N!Of(es, ty) : Q(es[i])
  IN /\ \A i \in DOMAIN s : EventAt(s[i], p.a)
     /\ p.fl = Flags(es)
     /\ \A ty \in {"Write", "GiveOwner", "TakeOwner"} : N!AtMostOne(N!Of(es, ty))
     /\ Each("Write", LAMBDA e : e.owner = p.oo /\ e.value = p.nd)
     /\ Each("Ensure", LAMBDA e : e.value = p.nd)
     /\ Each("Read", LAMBDA e : e.value = p.od)
     /\ Each("GiveOwner", LAMBDA e : e.owner = p.oo /\ e.value = p.no)
     /\ Each("TakeOwner", LAMBDA e : e.owner = p.no /\ e.value = p.oo)
     /\ Each("Credit", Credible)
     /\ p.cd = Credits(es)

(* events of one owner, as recorded by the node and by the virtual machine   *)
RECURSIVE Aligned(_, _, _)
Aligned(h, v, o) ==
  IF Is(h, "pair")
  THEN Is(v, "bpair") /\ Aligned(Node(h).l, Node(v).l, o) /\ Aligned(Node(h).r, Node(v).r, o)
  ELSE /\ Is(h, "ten") /\ Is(v, "bev")
       /\ Node(h).p = o /\ Node(h).x = Node(v).x /\ Node(h).y = Node(v).y /\ Node(h).q = Node(v).q

Merged(p) == /\ SameBag(Bag(p.mp, p.m), Bag(p.ap, p.a) \o Bag(p.bp, p.b))
             /\ p.mp = (p.ap \/ p.bp) /\ (~p.mp => p.m = Zero)

Good(k, kinds) == k.kind \in kinds /\ ~k.void
(* one program's part                                                       *)
OneProgram(p, kids) ==
  LET g == kids[1].p
      e == kids[2]
  IN \/ kids[1].kind # "program" /\ Excused("program-verifier")
     \/ /\ kids[1].kind = "program"
        /\ p.ids = g.id /\ p.ep = g.ep /\ p.call = g.call /\ p.cast = g.cast
        /\ IF g.ep THEN Good(e, {"ev"}) /\ e.p.o = g.id /\ e.p.vm = g.e /\ e.p.h = p.e
           ELSE g.e = Zero /\ p.e = Zero
Both(p, l, r) == SameBag(Bag(p.ep, p.e), Bag(l.ep, l.e) \o Bag(r.ep, r.e))
Only(p, l) == SameBag(Bag(p.ep, p.e), Bag(l.ep, l.e))
(* the parts of two sets of programs of the same transaction                *)
Programs(p, kids) ==
  LET l == kids[1].p
      r == kids[2].p
  IN /\ \A i \in 1..2 : Good(kids[i], {"pr_leaf", "pr"})
     /\ Good(kids[3], {"mg"})
     /\ p.call = l.call /\ p.cast = l.cast
     /\ \/ /\ Is(p.ids, "bpair") /\ Node(p.ids).l = l.ids /\ Node(p.ids).r = r.ids
           /\ r.call = p.call /\ r.cast = p.cast
           /\ Both(p, l, r)
        \/ p.ids = l.ids /\ Only(p, l)
Transaction(p, kids) == /\ Good(kids[1], {"pr"}) /\ kids[1].p.ids = kids[1].p.cast
                        /\ p.ep = kids[1].p.ep /\ p.e = kids[1].p.e
Transactions(p, kids) == /\ \A i \in 1..2 : Good(kids[i], {"tx_leaf", "tx"})
                         /\ Good(kids[3], {"mg"})
                         /\ Both(p, kids[1].p, kids[2].p) \/ Only(p, kids[1].p)

(* events move objects: `s` sums up what became of each address              *)
Obj(d) == [owner |-> Node(d).p, last |-> Node(d).x, credits |-> Node(d).y, data |-> Node(d).q]
Allowed(es, old, new, oldc, newc, Ex(_)) ==
  LET plain == SelectSeq(es, LAMBDA x : x.ty # "Credit")
      paid == [old EXCEPT !.credits = new.credits]
  IN /\ N!Changes(plain, paid, new)
     /\ Add(oldc, Credits(es)) = newc
     /\ \A i \in N!Of(es, "Credit") : Credible(es[i]) /\ (es[i].owner = old.owner \/ Ex("credit-owner"))
     /\ Wide(oldc, Amounts(es, FALSE)) = Wide(newc, Amounts(es, TRUE)) \/ Ex("credits-wrap")
Moved(s, e, ht) ==
  LET ls == Leaves(e)
      es == Events(ls)
      old == Obj(Node(s).o)
      new == Obj(Node(s).n)
      updated == N!Updated(es) \/ old.credits # new.credits
  IN /\ \A i \in DOMAIN ls : EventAt(ls[i], Node(s).a)
     /\ Is(Node(s).o, "ten") /\ Is(Node(s).n, "ten")
     /\ Allowed(es, old, new, Node(Node(s).o).yw, Node(Node(s).n).yw, Excused)
     /\ new.last = IF new.owner = Zero THEN "0" ELSE IF updated THEN ht ELSE old.last
(* an honest prover who has these events and objects gets them matched       *)
Provable(f, Ex(_)) ==
  LET Plain(o) == [owner |-> o.owner, last |-> "", credits |-> o.c, data |-> o.data]
  IN Allowed(Events(f.es), Plain(f.old), Plain(f.new), f.old.c, f.new.c, Ex)
RECURSIVE Matches(_, _, _)
Matches(e, s, ht) == IF Is(s, "sum") THEN Moved(s, e, ht)
                     ELSE /\ Is(s, "pair") /\ Is(e, "pair")
                          /\ Matches(Node(e).l, Node(s).l, ht) /\ Matches(Node(e).r, Node(s).r, ht)

(* one object of the state, and two halves of a state                       *)
StateLeaf(p) == IF p.sp THEN Is(p.s, "sum") /\ Node(p.s).a = p.a /\ Node(p.s).o = p.old /\ Node(p.s).n = p.new /\ p.ap
                ELSE p.s = Zero /\ p.old = p.new /\ ~p.ap
StateBranch(p, kids) ==
  LET l == kids[1].p
      r == kids[2].p
  IN /\ Is(p.old, "pair") /\ Node(p.old).l = l.old /\ Node(p.old).r = r.old
     /\ Is(p.new, "pair") /\ Node(p.new).l = l.new /\ Node(p.new).r = r.new
     /\ p.sp = (l.sp \/ r.sp) /\ p.ap = (l.ap \/ r.ap)
     /\ l.sp => l.ap /\ l.a = p.l
     /\ r.sp => r.ap /\ r.a = p.r
     /\ CASE l.sp /\ r.sp -> Is(p.s, "pair") /\ Node(p.s).l = l.s /\ Node(p.s).r = r.s
          [] l.sp -> p.s = l.s
          [] r.sp -> p.s = r.s
          [] OTHER -> p.s = Zero

(* a block: its transactions are matched, the match is what happens to the   *)
(* state, and the state before is that of the block before                   *)
Block(p, kids) ==
  LET tx == kids[1].p
      ma == kids[2].p
      st == kids[3].p
      prev == kids[4].p
  IN /\ Good(kids[1], {"tx"}) /\ Good(kids[2], {"ma"}) /\ Good(kids[3], {"st_top"}) /\ Good(kids[4], {"block", "block0"})
     /\ tx.ep /\ tx.e = ma.e
     /\ ma.ht = p.ht
     /\ st.sp /\ st.s = ma.s /\ st.a = "0"
     /\ st.old = prev.root /\ st.new = p.root
     /\ prev.base = p.base /\ prev.ht = p.before
     /\ IF kids[4].kind = "block0" THEN prev.ht = "0" /\ prev.root = prev.base ELSE prev.ht # "0"

Branch(kids, kinds) == \A i \in DOMAIN kids : Good(kids[i], kinds)
(* whoever checks a proof on its own accepts it unless it is void             *)
Recursive == {"acc", "ev", "mg", "pr", "tx", "ma", "block"}
Meaning(c, kids) ==
  CASE c.kind = "acc_leaf" -> Accumulated(c.p)
    [] c.kind = "acc" -> Accumulated(c.p) /\ Branch(kids, {"acc_leaf", "acc"})
    [] c.kind = "ev_leaf" -> Aligned(c.p.h, c.p.vm, c.p.o)
    [] c.kind = "ev" -> Aligned(c.p.h, c.p.vm, c.p.o) /\ Branch(kids, {"ev_leaf", "ev"})
    [] c.kind = "mg_leaf" -> Merged(c.p)
    [] c.kind = "mg" -> Merged(c.p) /\ Branch(kids, {"mg_leaf", "mg"})
    [] c.kind = "pr_leaf" -> OneProgram(c.p, kids)
    [] c.kind = "pr" -> Programs(c.p, kids)
    [] c.kind = "tx_leaf" -> Transaction(c.p, kids)
    [] c.kind = "tx" -> Transactions(c.p, kids)
    [] c.kind = "ma_leaf" -> Matches(c.p.e, c.p.s, c.p.ht) /\ Branch(kids, {"acc"})
    [] c.kind = "ma" -> Matches(c.p.e, c.p.s, c.p.ht) /\ Branch(kids, {"ma_leaf", "ma"})
    [] c.kind = "st_leaf" -> StateLeaf(c.p)
    [] c.kind \in {"st", "st_top"} -> StateBranch(c.p, kids)
    [] c.kind = "block" -> Block(c.p, kids)
    [] c.kind \in {"program", "block0"} -> TRUE
=============================================================================
