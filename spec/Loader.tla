------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* From an executable file to a program: a 32-bit little-endian RISC-V ELF  *)
(* executable is read one program header at a time.  A loadable segment     *)
(* gives its memory image (file bytes, then zeros up to its memory size) to *)
(* read-only memory, to read-write memory and to the instruction memory     *)
(* according to its flags, and nothing else contributes a byte.             *)
(*                                                                         *)
(* file: sequence of bytes; words are four bytes, least significant first.  *)
(***************************************************************************)
EXTENDS Decode, TLC

(* state of a load: at = next program header, or -1 once the file has been  *)
(* refused; ro, rw, xs = images collected so far, address -> byte            *)
At8(f, i) == f[i + 1]
At16(f, i) == At8(f, i) + 256 * At8(f, i + 1)
At32(f, i) == <<At8(f, i), At8(f, i + 1), At8(f, i + 2), At8(f, i + 3)>>
Small(w) == WFitsNat(w)
EhSize == 52
PhSize == 32
PtLoad == WNat(1)
MaxHeaders == 256

(* ---- the file header                                                     *)
Magic(f) == /\ Len(f) >= EhSize
            /\ <<At8(f, 0), At8(f, 1), At8(f, 2), At8(f, 3)>> = <<127, 69, 76, 70>>
Headers(f) == At16(f, 44)
TableAt(f) == At32(f, 28)
(* what makes a file an executable of this machine                          *)
Valid(f) ==
  /\ Magic(f)
  /\ At8(f, 4) = 1                        \* 32-bit
  /\ At8(f, 5) = 1                        \* little-endian
  /\ At8(f, 6) = 1
  /\ At16(f, 16) = 2                      \* executable
  /\ At16(f, 18) = 243                    \* RISC-V
  /\ At8(f, 24) % 4 = 0                   \* the entry point is aligned
  /\ TableAt(f) # W0 /\ Headers(f) \in 1..MaxHeaders /\ At16(f, 42) = PhSize
  /\ Small(TableAt(f)) /\ WToNat(TableAt(f)) + PhSize * Headers(f) <= Len(f)
Entry(f) == At32(f, 24)

(* ---- a program header                                                    *)
Ph(f, i) == LET o == WToNat(TableAt(f)) + PhSize * i IN
  [type |-> At32(f, o), offset |-> At32(f, o + 4), vaddr |-> At32(f, o + 8),
   filesz |-> At32(f, o + 16), memsz |-> At32(f, o + 20), flags |-> At8(f, o + 24)]
Loads(p) == p.type = PtLoad
X(p) == p.flags % 2 = 1
W(p) == (p.flags \div 2) % 2 = 1
R(p) == (p.flags \div 4) % 2 = 1
(* a segment whose contents are wholly in the file                          *)
Whole(f, p) == /\ Small(p.offset) /\ Small(p.filesz) /\ Small(p.memsz)
               /\ WToNat(p.offset) + WToNat(p.filesz) <= Len(f)
ImageOf(f, p) == LET n == WToNat(p.memsz)
                     k == WToNat(p.filesz)
                     o == WToNat(p.offset)
                     (* index from address *)
                     base == p.vaddr
                 IN [a \in {WAddN(base, i) : i \in 0..(n - 1)} |->
                       LET i == WToNat(WSub(a, base)) IN IF i < k THEN At8(f, o + i) ELSE 0]
Over(old, new) == new @@ old

Open(f) == [at |-> IF Valid(f) THEN 0 ELSE -1, ro |-> <<>>, rw |-> <<>>, xs |-> <<>>]
Reading(f, s) == s.at >= 0 /\ s.at < Headers(f)
(* read the next program header                                             *)
Read(f, s) ==
  LET p == Ph(f, s.at)
      img == ImageOf(f, p)
  IN IF ~Loads(p) \/ ~(R(p) \/ X(p)) THEN   \* nothing of it is ever seen
        [s EXCEPT !.at = @ + 1]
     ELSE IF ~Whole(f, p) THEN [s EXCEPT !.at = -1]
     ELSE [at |-> s.at + 1,
           ro |-> IF R(p) /\ ~W(p) THEN Over(s.ro, img) ELSE s.ro,
           rw |-> IF R(p) /\ W(p) THEN Over(s.rw, img) ELSE s.rw,
           xs |-> IF X(p) THEN Over(s.xs, img) ELSE s.xs]
Run(f) == IF ~Valid(f) THEN Open(f)
          ELSE FoldLeft(LAMBDA s, i : IF Reading(f, s) THEN Read(f, s) ELSE s, Open(f), [i \in 1..Headers(f) |-> i])
Refused(s) == s.at = -1

(* ---- what comes out                                                      *)
Aligned(a) == <<a[1] - (a[1] % 4), a[2], a[3], a[4]>>
ByteAt(img, a) == IF a \in DOMAIN img THEN img[a] ELSE 0
WordAt(img, a) == [i \in 1..4 |-> ByteAt(img, WAddN(a, i - 1))]
(* every aligned word that has a byte in the image is decoded, at its address *)
CodeOf(img) == [a \in {Aligned(b) : b \in DOMAIN img} |-> DecodeWord(a, WordAt(img, a))]
(* memory when the program starts: read-only memory takes precedence         *)
MemoryOf(r, w) == Over(w, r)
(* an image of words, as tests and debugging tools give it                  *)
BytesOf(words) == [a \in UNION {{WAddN(k, i) : i \in 0..3} : k \in DOMAIN words} |->
                     LET k == CHOOSE k \in DOMAIN words : \E i \in 0..3 : WAddN(k, i) = a
                         i == CHOOSE i \in 0..3 : WAddN(k, i) = a
                     IN words[k][i + 1]]
Clash(words) == \E k1, k2 \in DOMAIN words : k1 # k2 /\ \E i \in 1..3 : WAddN(k1, i) = k2
=============================================================================
