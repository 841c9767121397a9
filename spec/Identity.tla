------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* What a program is, to those who have only its identity: where it starts,  *)
(* which instruction is at which address, and which bytes memory holds at    *)
(* first, each writable or not.  Words that are no instructions cannot be     *)
(* executed; they are not part of it.  How the program is written down       *)
(* (in which order, how often) is neither.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
(* a program as loaded: the text by address, memory by address               *)
Code(p) == {p.text[i] : i \in {j \in DOMAIN p.text : p.text[j][2].op # "ERROR"}}
Bytes(image, writable) == {<<image[i][1], image[i][2], writable>> : i \in DOMAIN image}
Content(p) == [entry |-> p.entry, code |-> Code(p), memory |-> Bytes(p.ro, FALSE) \cup Bytes(p.rw, TRUE)]
Same(p, q) == Content(p) = Content(q)
(* identities are to programs as contents: one for one                       *)
OneForOne(p, i, q, j) == Same(p, q) <=> i = j
=============================================================================
