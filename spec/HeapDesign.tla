----------------------------- MODULE HeapDesign -----------------------------
(***************************************************************************)
(* A heap that only ever moves on, in a small address space: with a check   *)
(* that the next block ends before the address space does, every block is   *)
(* as Heap demands; without it, blocks come to lie on others (Checked =      *)
(* FALSE violates Disjoint).                                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Size, End, Slots, Sizes, Aligns, Checked
VARIABLES image, held, pos, last
Le(a, b) == a <= b
Plus(a, b) == a + b
Aligned(p, a) == p % a = 0
H == INSTANCE Heap WITH Top <- Size, Null <- 0, Slack <- 0
Up(p, a) == ((p + a - 1) \div a) * a
Init == image = [from |-> 1, to |-> End] /\ held = <<>> /\ pos = End /\ last = "none"
Alloc(s, n, a) ==
  /\ s \notin DOMAIN held
  /\ LET p == Up(pos, a) % Size IN
       IF Checked /\ Up(pos, a) + n > Size THEN last' = "refused" /\ UNCHANGED <<image, held, pos>>
       ELSE /\ held' = H!With(s, [from |-> p, to |-> p + n, align |-> a]) /\ pos' = (p + n) % (IF Checked THEN Size + 1 ELSE Size)
            /\ last' = "given" /\ UNCHANGED image
Free(s) == H!Free(s) /\ last' = "freed" /\ UNCHANGED pos
Next == \E s \in Slots : Free(s) \/ \E n \in Sizes, a \in Aligns : Alloc(s, n, a)
Spec == Init /\ [][Next]_<<image, held, pos, last>>
Disjoint == \A j, k \in DOMAIN held : j # k => H!Apart(held[j], held[k])
OffImage == \A k \in DOMAIN held : H!Apart(held[k], image)
Within == \A k \in DOMAIN held : held[k].to <= Size /\ held[k].from % held[k].align = 0
(* every step of it is one Heap allows                                      *)
Allowed == [][\/ \E s \in Slots : H!Free(s)
              \/ \E s \in Slots, n \in Sizes, a \in Aligns : s \in DOMAIN held' \ DOMAIN held /\ H!Give(s, held'[s].from, n, a)
              \/ last' = "refused" /\ H!Refuse]_<<image, held, pos, last>>
(* there is no refusing while there is room                                 *)
Generous == [][last' = "refused" => \E n \in Sizes, a \in Aligns : ~H!Room(pos, n, a)]_<<image, held, pos, last>>
=============================================================================
