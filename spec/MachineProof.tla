---------------------------- MODULE MachineProof ----------------------------
(***************************************************************************)
(* The protocol of a proof of an execution: what is said and what is drawn,  *)
(* in which order.  A proof is a thread of steps; a challenge depends on      *)
(* exactly what was said before it was drawn.                                *)
(*   single: one proof for each table, each on a thread of its own that      *)
(*           starts from the common one                                      *)
(*   batch:  some tables are proved separately, one after the other, and     *)
(*           then all the others at once                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names,      \* the tables, in order
          Separate,   \* those the batched proof commits to on their own
          Challenges  \* how often everything is checked
Say(kind, table) == [do |-> "say", kind |-> kind, table |-> table]
Draw(n) == [i \in 1..n |-> [do |-> "draw"]]
Separately == SelectSeq(Names, LAMBDA t : t \in Separate)
(* commitment to the lookups' sums, to the quotients, openings; then the      *)
(* challenges of the polynomial commitment scheme (2: the folding factor in   *)
(* the extension field, 1: the proof of work)                                *)
Rounds(t) == <<Say("ctl_zs_cap", t)>> \o Draw(Challenges) \o <<Say("quotient_cap", t)>> \o Draw(2)
             \o <<Say("opening", t)>> \o Draw(3)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Opening(parts) == <<Say("public", "")>> \o <<Say("entry", "")>>
                  \o [i \in DOMAIN parts |-> Say("trace_cap", parts[i])]
                  \o Draw(2 * Challenges)
(* a proof as threads: the common one, and those that go on from it           *)
Common(on) == IF on = "single" THEN Opening(Names)
              ELSE Opening(Separately \o <<"batch">>) \o Concat([i \in DOMAIN Separately |-> Rounds(Separately[i])]) \o Rounds("batch")
Threads(on) == IF on = "single" THEN [i \in DOMAIN Names |-> Rounds(Names[i])] ELSE <<>>
Draws(thread) == Cardinality({i \in DOMAIN thread : thread[i].do = "draw"})
(* which draws of a thread come after the message is said; what is said       *)
(* before everything of the thread counts for all of it                      *)
SaidAt(thread, m) == {i \in DOMAIN thread : thread[i].do = "say" /\ thread[i].kind = m.kind /\ thread[i].table = m.table}
After(thread, m) ==
  LET at == SaidAt(thread, m)
      ds == SelectSeq([i \in DOMAIN thread |-> IF thread[i].do = "draw" THEN i ELSE 0], LAMBDA i : i > 0)
  IN [k \in DOMAIN ds |-> \E i \in at : ds[k] > i]
(* all draws of a proof, in the order the verifier makes them                 *)
Bound(on, m) ==
  LET common == After(Common(on), m)
      said == SaidAt(Common(on), m) # {}
      rest == [i \in DOMAIN Threads(on) |-> LET a == After(Threads(on)[i], m) IN [k \in DOMAIN a |-> said \/ a[k]]]
  IN common \o Concat(rest)
(* every message comes before some challenge that depends on it; and what the *)
(* first challenges check (the lookups and the public values) before all     *)
Total(on) == Len(Bound(on, [kind |-> "entry", table |-> ""]))
Messages(on) == {[kind |-> s.kind, table |-> s.table] : s \in {x \in UNION {{Common(on)[i] : i \in DOMAIN Common(on)}} \cup
                   UNION {{Threads(on)[j][i] : i \in DOMAIN Threads(on)[j]} : j \in DOMAIN Threads(on)} : x.do = "say"}}
Binding(on) == \A m \in Messages(on) :
                 LET b == Bound(on, m)
                 IN /\ \E k \in DOMAIN b : b[k]
                    /\ m.kind \in {"public", "entry", "trace_cap"} => \A k \in DOMAIN b : b[k]
=============================================================================
