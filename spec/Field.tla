------------------------------- MODULE Field -------------------------------
(* The field of the proofs, p = 2^64 - 2^32 + 1: elements are four 16-bit    *)
(* limbs, least significant first.                                          *)
EXTENDS Integers, Sequences
P == <<1, 0, 65535, 65535>>
RECURSIVE Carry(_, _, _)
(* a + b + c over the limbs of two numbers, as a sequence one limb longer    *)
Carry(a, b, c) == IF a = <<>> THEN <<c>>
                  ELSE LET s == a[1] + b[1] + c
                       IN <<s % 65536>> \o Carry(Tail(a), Tail(b), s \div 65536)
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE
              ELSE LET n == Len(a)
                   IN IF a[n] # b[n] THEN a[n] < b[n] ELSE Less(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))
RECURSIVE Borrow(_, _, _)
Borrow(a, b, c) == IF a = <<>> THEN <<>>
                   ELSE LET s == a[1] - b[1] - c
                        IN <<s % 65536>> \o Borrow(Tail(a), Tail(b), IF s < 0 THEN 1 ELSE 0)
Zero4 == <<0, 0, 0, 0>>
Reduce5(s) == LET q == P \o <<0>> IN SubSeq(IF Less(s, q) THEN s ELSE Borrow(s, q, 0), 1, 4)
Add(a, b) == Reduce5(Carry(a, b, 0))
Neg(a) == IF a = Zero4 THEN a ELSE Borrow(P, a, 0)
=============================================================================
