---------------------------- MODULE LoaderDesign ----------------------------
(* Small executables: three program headers of every type, permission and   *)
(* size from a small set, at addresses that touch, nest or sit at the top of *)
(* the address space.                                                       *)
EXTENDS Loader, TLC
VARIABLES file, s
HeaderBytes(p) == WNat(p.t) \o WNat(p.off) \o p.va \o p.va \o WNat(p.fs) \o WNat(p.ms) \o WNat(p.fl) \o WNat(4)
File(ps) == <<127, 69, 76, 70, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 243, 0, 1, 0, 0, 0>>
            \o <<0, 16, 0, 0>> \o WNat(52) \o W0 \o W0 \o <<52, 0, 32, 0>> \o <<Len(ps), 0>> \o <<0, 0, 0, 0, 0, 0>>
            \o FoldLeft(LAMBDA acc, p : acc \o HeaderBytes(p), <<>>, ps)
            \o <<19, 5, 1, 0, 200, 201, 202>>      \* contents, after the headers
Sizes == {<<0, 0, 3>>, <<0, 3, 3>>, <<1, 3, 5>>, <<3, 5, 5>>}   \* offset, in the file, in memory
Phs == {[t |-> t, off |-> 52 + 32 * 2 + z[1], fs |-> z[2], ms |-> z[3], va |-> va, fl |-> fl] :
          t \in {1, 4}, z \in Sizes, va \in {<<0, 1, 0, 0>>, <<2, 1, 0, 0>>, <<251, 255, 255, 255>>}, fl \in {1, 4, 5, 6, 7}}
Init == /\ \E a, b \in Phs : file = File(<<a, b>>)
        /\ s = Open(file)
Next == Reading(file, s) /\ s' = Read(file, s) /\ UNCHANGED file
Spec == Init /\ [][Next]_<<file, s>> /\ WF_<<file, s>>(Next)

Ps == {Ph(file, i) : i \in 0..(Headers(file) - 1)}
Seen == {Ph(file, i) : i \in 0..(s.at - 1)}
Inside(a, p) == WLtU(WSub(a, p.vaddr), p.memsz)
TypeOK == Valid(file) /\ s.at \in -1..Headers(file)
(* no byte that no loadable segment covers; every byte a segment covers      *)
NothingElse == s.at >= 0 =>
  /\ DOMAIN s.ro \cup DOMAIN s.rw \cup DOMAIN s.xs \subseteq UNION {DOMAIN ImageOf(file, p) : p \in {p \in Seen : Loads(p)}}
  /\ \A p \in Seen : Loads(p) => \A a \in DOMAIN ImageOf(file, p) :
        /\ Inside(a, p)
        /\ (R(p) /\ ~W(p)) => a \in DOMAIN s.ro
        /\ (R(p) /\ W(p)) => a \in DOMAIN s.rw
        /\ X(p) => a \in DOMAIN s.xs
(* what can be executed and read is the same bytes, unless segments overlap  *)
Apart == /\ \A p \in Ps : Loads(p) => Whole(file, p)
         /\ \A p, q \in Ps : p # q /\ Loads(p) /\ Loads(q) => DOMAIN ImageOf(file, p) \cap DOMAIN ImageOf(file, q) = {}
CodeIsCopy == Apart /\ s.at >= 0 => \A a \in DOMAIN s.xs : a \in DOMAIN MemoryOf(s.ro, s.rw) => MemoryOf(s.ro, s.rw)[a] = s.xs[a]
Precedence == \A a \in DOMAIN s.ro : MemoryOf(s.ro, s.rw)[a] = s.ro[a]
(* the order of the headers does not matter unless they overlap              *)
Swapped == IF Headers(file) < 2 THEN file
           ELSE SubSeq(file, 1, 52) \o SubSeq(file, 85, 116) \o SubSeq(file, 53, 84) \o SubSeq(file, 117, Len(file))
OrderFree == s.at = Headers(file) /\ Apart =>
             LET t == Run(Swapped) IN t = s
Finishes == <>(Refused(s) \/ s.at = Headers(file))
=============================================================================
