-------------------------------- MODULE Sdk --------------------------------
(***************************************************************************)
(* The SDK in native execution: programs call each other, emit events and   *)
(* feed input tapes; everything lands on one system tape.                   *)
(*                                                                          *)
(*  stack    identities in charge, innermost last (empty: the null program) *)
(*  open     indices of the calls that are still being resolved             *)
(*  calls    the global call tape, in the order the calls were made         *)
(*  events   per program, its events in the order they were emitted         *)
(*  inputs   per kind of tape and program, the bytes written                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Order

CONSTANTS Ids, Null, Args, Rets, Events, Chunks, Kinds
VARIABLES stack, open, calls, events, inputs
sdk == <<stack, open, calls, events, inputs>>

Top == IF stack = <<>> THEN Null ELSE stack[Len(stack)]
Pop(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE <<>>
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

InitSdk == /\ stack = <<>> /\ open = <<>> /\ calls = <<>> /\ events = <<>>
           /\ inputs = [k \in Kinds |-> <<>>]

(* the call is on the tape before its resolver runs as the callee            *)
SendBegin(callee, arg) ==
  /\ calls' = Append(calls, [caller |-> Top, callee |-> callee, arg |-> arg, ret |-> <<>>])
  /\ stack' = Append(stack, callee)
  /\ open' = Append(open, Len(calls) + 1)
  /\ UNCHANGED <<events, inputs>>
(* the return value goes to the call that asked for it                       *)
SendEnd(ret) ==
  /\ open # <<>>
  /\ calls' = [calls EXCEPT ![open[Len(open)]].ret = ret]
  /\ stack' = Pop(stack)
  /\ open' = Pop(open)
  /\ UNCHANGED <<events, inputs>>
(* events and inputs belong to the program in charge; the null program has   *)
(* neither                                                                   *)
Refused == Top = Null
Emit(e) ==
  /\ ~Refused
  /\ events' = Put(events, Top, Append(At(events, Top), e))
  /\ UNCHANGED <<stack, open, calls, inputs>>
Write(kind, bytes) ==
  /\ ~Refused
  /\ inputs' = [inputs EXCEPT ![kind] = Put(@, Top, At(@, Top) \o bytes)]
  /\ UNCHANGED <<stack, open, calls, events>>
Refuse == Refused /\ UNCHANGED sdk
AddIdentity(id) == stack' = Append(stack, id) /\ UNCHANGED <<open, calls, events, inputs>>
RmIdentity == stack' = Pop(stack) /\ UNCHANGED <<open, calls, events, inputs>>
(* a resolver leaves the stack as deep as it found it                        *)
Floor == IF open = <<>> THEN 0 ELSE Len(open)

NextSdk ==
  \/ \E c \in Ids, a \in Args : SendBegin(c, a)
  \/ \E r \in Rets : SendEnd(r)
  \/ \E e \in Events : Emit(e)
  \/ \E k \in Kinds, b \in Chunks : Write(k, b)
  \/ Refuse
  \/ \E i \in Ids : AddIdentity(i)
  \/ Len(stack) > Floor /\ RmIdentity

-----------------------------------------------------------------------------
(* Canonical form of an event list.  ValueOf(e) is the digest of its data.   *)
TypeRank(t) == CASE t = "Write" -> 0 [] t = "Ensure" -> 1 [] t = "Read" -> 2
                 [] t = "GiveOwner" -> 3 [] t = "TakeOwner" -> 4
(* address as a number, then kind, then value                                *)
CanonLess(x, y) ==
  \/ NumLess(x.addr, y.addr)
  \/ x.addr = y.addr /\ TypeRank(x.type) < TypeRank(y.type)
  \/ x.addr = y.addr /\ x.type = y.type /\ LexLess(x.value, y.value)
(* SortIndex(s): k-th in canonical order is the SortIndex[k]-th emitted      *)
Canonical(s) == StableSort(s, CanonLess)
(* where the t-th emitted event is in the canonical order                    *)
PlaceOf(s) == LET p == SortIndex(s, CanonLess)
              IN [t \in 1..Len(s) |-> CHOOSE k \in 1..Len(s) : p[k] = t]
=============================================================================
