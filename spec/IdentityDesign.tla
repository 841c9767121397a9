--------------------------- MODULE IdentityDesign ---------------------------
(***************************************************************************)
(* How an identity is made, and that it is one for one: the contents are     *)
(* laid out as tables (rows in the order of their addresses, filled up to a   *)
(* power of two), each table is committed to by a tree over its rows, and     *)
(* the entry point and the two commitments are hashed together.  Hashes are   *)
(* terms, so nothing collides by accident; what is left is whether the        *)
(* layout itself forgets anything.                                           *)
(***************************************************************************)
EXTENDS Identity, TLC
CONSTANTS Addresses, Instructions, Values, PadCode
VARIABLE p
Entries == 1..2
NoIns == [op |-> "ERROR"]
Text == UNION {[A -> {[op |-> i] : i \in Instructions} \cup {NoIns}] : A \in SUBSET Addresses}
Image == UNION {[A -> Values \X BOOLEAN] : A \in SUBSET Addresses}
RECURSIVE Sorted(_)
Sorted(A) == IF A = {} THEN <<>> ELSE LET m == CHOOSE x \in A : \A y \in A : x <= y IN <<m>> \o Sorted(A \ {m})
(* no program without code                                                   *)
Programs == [entry : Entries, text : {t \in Text : \E a \in DOMAIN t : t[a] # NoIns}, image : Image]
AsLoaded(s) ==
  LET t == Sorted(DOMAIN s.text)
      m(w) == Sorted({a \in DOMAIN s.image : s.image[a][2] = w})
  IN [entry |-> s.entry, text |-> [i \in DOMAIN t |-> <<t[i], s.text[t[i]]>>],
      ro |-> [i \in DOMAIN m(FALSE) |-> <<m(FALSE)[i], s.image[m(FALSE)[i]][1]>>],
      rw |-> [i \in DOMAIN m(TRUE) |-> <<m(TRUE)[i], s.image[m(TRUE)[i]][1]>>]]
(* rows, in order                                                            *)
RECURSIVE Pow(_)
Pow(n) == IF n <= 1 THEN 1 ELSE 2 * Pow((n + 1) \div 2)
Fill(rows, row) == rows \o [i \in 1..(Pow(Len(rows)) - Len(rows)) |-> row]
CodeRows(s) == LET c == {a \in DOMAIN s.text : s.text[a] # NoIns}
                   rows == [i \in 1..Cardinality(c) |-> <<Sorted(c)[i], s.text[Sorted(c)[i]].op>>]
               IN IF PadCode = "last" THEN Fill(rows, rows[Len(rows)]) ELSE Fill(rows, <<0, "a">>)
MemoryRows(s) == LET d == Sorted(DOMAIN s.image)
                 IN Fill([i \in DOMAIN d |-> <<1, d[i], s.image[d[i]][1], s.image[d[i]][2]>>], <<0, 0, 0, FALSE>>)
(* a tree over a power of two of leaves                                      *)
RECURSIVE Commit(_)
Commit(rows) == IF rows = <<>> THEN [empty |-> TRUE]
                ELSE IF Len(rows) = 1 THEN [leaf |-> rows[1]]
                ELSE LET h == Len(rows) \div 2 IN [left |-> Commit(SubSeq(rows, 1, h)), right |-> Commit(SubSeq(rows, h + 1, Len(rows)))]
Id(s) == [hash |-> <<s.entry, Commit(CodeRows(s)), Commit(MemoryRows(s))>>]
Rows(s) == <<s.entry, CodeRows(s), MemoryRows(s)>>
(* the contents can be read back from the rows, and nothing else is in them   *)
Read(rows) == [entry |-> rows[1], code |-> {<<rows[2][i][1], [op |-> rows[2][i][2]]>> : i \in DOMAIN rows[2]},
               memory |-> {<<rows[3][i][2], rows[3][i][3], rows[3][i][4]>> : i \in {j \in DOMAIN rows[3] : rows[3][j][1] = 1}}]
Bare(s) == [s EXCEPT !.text = [a \in {b \in DOMAIN s.text : s.text[b] # NoIns} |-> s.text[a]]]
Init == p \in Programs
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
ReadBack == Read(Rows(p)) = Content(AsLoaded(p))
NothingElse == Id(p) = Id(Bare(p)) /\ Same(AsLoaded(p), AsLoaded(Bare(p)))
RECURSIVE Leaves(_)
Leaves(c) == IF "empty" \in DOMAIN c THEN <<>> ELSE IF "leaf" \in DOMAIN c THEN <<c.leaf>> ELSE Leaves(c.left) \o Leaves(c.right)
Committed == Leaves(Commit(CodeRows(p))) = CodeRows(p) /\ Leaves(Commit(MemoryRows(p))) = MemoryRows(p)
=============================================================================
