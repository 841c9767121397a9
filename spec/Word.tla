-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* 32-bit machine words as little-endian 4-tuples of bytes, because TLC's  *)
(* integers are 32-bit signed.  Word[1] is the least significant byte.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Byte == 0..255
IsWord(w) == /\ DOMAIN w = 1..4 /\ \A i \in 1..4 : w[i] \in Byte

W0 == <<0, 0, 0, 0>>
W1 == <<1, 0, 0, 0>>
WOnes == <<255, 255, 255, 255>>
WMinS == <<0, 0, 0, 128>>

(* small natural (< 2^31) to word and back (back only when it fits)         *)
WNat(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
WFitsNat(w) == w[4] < 128
WToNat(w) == w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]

WAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div 256)
      s3 == a[3] + b[3] + (s2 \div 256)
      s4 == a[4] + b[4] + (s3 \div 256)
  IN <<s1 % 256, s2 % 256, s3 % 256, s4 % 256>>
WNot(a) == <<255 - a[1], 255 - a[2], 255 - a[3], 255 - a[4]>>
WNeg(a) == WAdd(WNot(a), W1)
WSub(a, b) == WAdd(a, WNeg(b))
WAddN(a, n) == WAdd(a, WNat(n))

WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

WLtU(a, b) == IF a[4] # b[4] THEN a[4] < b[4]
              ELSE IF a[3] # b[3] THEN a[3] < b[3]
              ELSE IF a[2] # b[2] THEN a[2] < b[2]
              ELSE a[1] < b[1]
WIsNeg(a) == a[4] >= 128
WFlip(a) == <<a[1], a[2], a[3], (a[4] + 128) % 256>>
WLtS(a, b) == WLtU(WFlip(a), WFlip(b))

(* full 64-bit unsigned product as <<lo, hi>>                               *)
WMul64(a, b) ==
  LET p1 == a[1]*b[1]
      p2 == a[1]*b[2] + a[2]*b[1] + (p1 \div 256)
      p3 == a[1]*b[3] + a[2]*b[2] + a[3]*b[1] + (p2 \div 256)
      p4 == a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1] + (p3 \div 256)
      p5 == a[2]*b[4] + a[3]*b[3] + a[4]*b[2] + (p4 \div 256)
      p6 == a[3]*b[4] + a[4]*b[3] + (p5 \div 256)
      p7 == a[4]*b[4] + (p6 \div 256)
  IN << <<p1 % 256, p2 % 256, p3 % 256, p4 % 256>>,
        <<p5 % 256, p6 % 256, p7 % 256, p7 \div 256>> >>
WMulLo(a, b) == WMul64(a, b)[1]
WMulHiUU(a, b) == WMul64(a, b)[2]
(* signed corrections: a_s = a_u - 2^32 [a < 0]                             *)
WMulHiSU(a, b) == LET h == WMul64(a, b)[2] IN IF WIsNeg(a) THEN WSub(h, b) ELSE h
WMulHiSS(a, b) == LET h == WMulHiSU(a, b) IN IF WIsNeg(b) THEN WSub(h, a) ELSE h

(* bits                                                                     *)
WBit(a, i) == (a[(i \div 8) + 1] \div (2^(i % 8))) % 2

(* schoolbook long division: one binary digit at a time                     *)
DivDigit(a, d, acc, i) ==
  LET q == acc[1]
      r == acc[2]
      carry == r[4] >= 128
      dbl == WAdd(r, r)
      r2 == IF WBit(a, i) = 1 THEN WAdd(dbl, W1) ELSE dbl
      ge == carry \/ ~WLtU(r2, d)
      qq == WAdd(q, q)
  IN <<IF ge THEN WAdd(qq, W1) ELSE qq, IF ge THEN WSub(r2, d) ELSE r2>>
BitsDown == [j \in 1..32 |-> 32 - j]
WQuoRemU(a, d) == FoldLeft(LAMBDA acc, i : DivDigit(a, d, acc, i), <<W0, W0>>, BitsDown)  \* d # 0
WAbs(a) == IF WIsNeg(a) THEN WNeg(a) ELSE a

(* RISC-V M extension conventions                                           *)
WDivU(a, b) == IF b = W0 THEN WOnes ELSE WQuoRemU(a, b)[1]
WRemU(a, b) == IF b = W0 THEN a ELSE WQuoRemU(a, b)[2]
WDivS(a, b) == IF b = W0 THEN WOnes
               ELSE LET q == WQuoRemU(WAbs(a), WAbs(b))[1]
                    IN IF WIsNeg(a) # WIsNeg(b) THEN WNeg(q) ELSE q
WRemS(a, b) == IF b = W0 THEN a
               ELSE LET r == WQuoRemU(WAbs(a), WAbs(b))[2]
                    IN IF WIsNeg(a) THEN WNeg(r) ELSE r

(* shifts by n \in 0..31                                                     *)
WPow2(n) == [i \in 1..4 |-> IF (n \div 8) + 1 = i THEN 2^(n % 8) ELSE 0]
WShl(a, n) == WMulLo(a, WPow2(n))
WShrFill(a, n, fill) ==
  LET k == n \div 8
      s == n % 8
      at(i) == IF i + k <= 4 THEN a[i + k] ELSE fill
      one(i) == (at(i) + 256 * at(i + 1)) \div (2^s) % 256
  IN <<one(1), one(2), one(3), one(4)>>
WShrL(a, n) == WShrFill(a, n, 0)
WShrA(a, n) == WShrFill(a, n, IF WIsNeg(a) THEN 255 ELSE 0)
WLow5(a) == a[1] % 32
WBool(p) == IF p THEN W1 ELSE W0
WSext8(b) == <<b, IF b >= 128 THEN 255 ELSE 0, IF b >= 128 THEN 255 ELSE 0, IF b >= 128 THEN 255 ELSE 0>>
WSext16(b0, b1) == <<b0, b1, IF b1 >= 128 THEN 255 ELSE 0, IF b1 >= 128 THEN 255 ELSE 0>>
WClearBit0(a) == <<a[1] - (a[1] % 2), a[2], a[3], a[4]>>
WAligned4(a) == <<a[1] - (a[1] % 4), a[2], a[3], a[4]>>
=============================================================================
