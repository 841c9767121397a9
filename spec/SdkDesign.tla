----------------------------- MODULE SdkDesign -----------------------------
(* Exhaustive exploration of Sdk on small domains.                          *)
EXTENDS Sdk, TLC
CONSTANTS MaxCalls, MaxEvents, MaxStack
Bound == /\ Len(calls) <= MaxCalls /\ Len(stack) <= MaxStack
         /\ Len(At(events, "A")) + Len(At(events, "B")) <= MaxEvents
         /\ \A k \in Kinds : \A i \in DOMAIN inputs[k] : Len(inputs[k][i]) <= 1
E1 == [addr |-> <<0, 1>>, type |-> "Read", value |-> <<2, 1>>]
E2 == [addr |-> <<1, 0>>, type |-> "Read", value |-> <<1, 2>>]
E3 == [addr |-> <<1, 0>>, type |-> "Write", value |-> <<2, 1>>]
E4 == [addr |-> <<1, 0>>, type |-> "Read", value |-> <<1, 1>>]
EventSet == {E1, E2, E3, E4}
ChunkSet == {<<7>>}
RetSet == {<<1>>, <<2>>}
KindSet == {"public"}
Cap == {"A", "B"}
Spec == InitSdk /\ [][NextSdk]_sdk

NoOwnerlessRecord == Null \notin DOMAIN events /\ \A k \in Kinds : Null \notin DOMAIN inputs[k]
WellNested == /\ Len(open) <= Len(stack)
              /\ \A i \in 1..(Len(open) - 1) : open[i] < open[i + 1]
              /\ \A i \in DOMAIN open : open[i] \in DOMAIN calls
(* a call is never lost, reordered or relabelled, and is answered once       *)
TapeAppendOnly == [][/\ Len(calls') \in {Len(calls), Len(calls) + 1}
  /\ \A i \in DOMAIN calls : /\ calls'[i].caller = calls[i].caller /\ calls'[i].callee = calls[i].callee
                             /\ calls'[i].arg = calls[i].arg
                             /\ (calls'[i].ret # calls[i].ret => open # <<>> /\ i = open[Len(open)])]_sdk
(* only the program in charge gains events or input                          *)
Attribution == [][/\ \A i \in Ids : At(events', i) # At(events, i) => i = Top
                  /\ \A k \in Kinds, i \in Ids : At(inputs'[k], i) # At(inputs[k], i) => i = Top]_sdk
EventsAppendOnly == [][\A i \in DOMAIN events : /\ i \in DOMAIN events'
                         /\ SubSeq(events'[i], 1, Len(events[i])) = events[i]]_sdk
CallerInCharge == [][Len(calls') > Len(calls) => calls'[Len(calls')].caller = Top /\ stack'[Len(stack')] = calls'[Len(calls')].callee]_sdk
(* the canonical order is a total order of the multiset: it forgets when      *)
(* things were emitted, and the hints invert it                               *)
Sorted(s) == \A i \in 1..(Len(s) - 1) : ~CanonLess(s[i + 1], s[i])
CanonicalOk == \A i \in DOMAIN events : LET s == events[i] IN
   /\ Sorted(Canonical(s))
   /\ Canonical(Rev(s)) = Canonical(s)
   /\ \A t \in DOMAIN s : Canonical(s)[PlaceOf(s)[t]] = s[t]
   /\ {PlaceOf(s)[t] : t \in DOMAIN s} = DOMAIN s
ASSUME \A x \in EventSet, y \in EventSet : x # y => (CanonLess(x, y) # CanonLess(y, x))
=============================================================================
