------------------------------- MODULE Guest -------------------------------
(***************************************************************************)
(* A program in the virtual machine, checked against the tapes it is        *)
(* handed.  An operation that is not enabled aborts the program: it never   *)
(* halts normally, so nothing it did can be claimed.                        *)
(*                                                                          *)
(*  tp     the tapes: self, calls, hints (events in canonical order, with   *)
(*         `at`, the 0-based place of the k-th emitted event in that        *)
(*         order), evc, clc (the claimed commitments), in (bytes per input) *)
(*  ci     calls passed, ei events passed, seen the hints already used      *)
(*  pos    bytes read per input tape                                        *)
(*  on     "running", "halted" or "aborted"                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Null
VARIABLES tp, ci, ei, seen, pos, on
Start(t) == tp' = t /\ ci' = 0 /\ ei' = 0 /\ seen' = {} /\ pos' = [k \in DOMAIN t.in |-> 0] /\ on' = "running"
InitGuest(t) == tp = t /\ ci = 0 /\ ei = 0 /\ seen = {} /\ pos = [k \in DOMAIN t.in |-> 0] /\ on = "running"

Cast == {tp.calls[i].callee : i \in DOMAIN tp.calls}
Casted(x) == x = Null \/ x \in Cast
Least(s) == CHOOSE i \in s : \A j \in s : i <= j

(* calling: the next call on the tape is this one; the answer is the tape's  *)
CanSend(to, arg) == /\ ci < Len(tp.calls)
                    /\ tp.calls[ci + 1].caller = tp.self
                    /\ tp.calls[ci + 1].callee = to
                    /\ tp.calls[ci + 1].arg = arg
SendAnswer == tp.calls[ci + 1].ret
Send(to, arg) == /\ on = "running" /\ CanSend(to, arg) /\ ci' = ci + 1
                 /\ UNCHANGED <<tp, ei, seen, pos, on>>
(* being called: pass over what concerns others, up to the next call to me;  *)
(* a call of mine may not be passed over                                     *)
Mine == {i \in (ci + 1)..Len(tp.calls) : tp.self \in {tp.calls[i].caller, tp.calls[i].callee}}
CanReceive == IF Mine = {} THEN TRUE
              ELSE LET c == tp.calls[Least(Mine)] IN c.caller # tp.self /\ Casted(c.caller)
Received == IF Mine = {} THEN <<>> ELSE <<tp.calls[Least(Mine)]>>
Receive == /\ on = "running" /\ CanReceive
           /\ ci' = IF Mine = {} THEN Len(tp.calls) ELSE Least(Mine)
           /\ UNCHANGED <<tp, ei, seen, pos, on>>
(* emitting: the hint in turn points at this very event, not used before     *)
CanEmit(c) == /\ ei < Len(tp.hints)
              /\ LET k == tp.hints[ei + 1].at + 1 IN
                   /\ k \in DOMAIN tp.hints /\ k \notin seen
                   /\ [addr |-> tp.hints[k].addr, type |-> tp.hints[k].type, value |-> tp.hints[k].value] = c
Emit(c) == /\ on = "running" /\ CanEmit(c)
           /\ seen' = seen \cup {tp.hints[ei + 1].at + 1} /\ ei' = ei + 1
           /\ UNCHANGED <<tp, ci, pos, on>>
(* reading: what was asked for or what is left, whichever is less            *)
MinOf(a, b) == IF a <= b THEN a ELSE b
ReadBytes(k, n) == SubSeq(tp.in[k], pos[k] + 1, MinOf(pos[k] + n, Len(tp.in[k])))
Read(k, n) == /\ on = "running" /\ pos' = [pos EXCEPT ![k] = MinOf(@ + n, Len(tp.in[k]))]
              /\ UNCHANGED <<tp, ci, ei, seen, on>>
Keep == UNCHANGED <<tp, ci, ei, seen, pos, on>>
(* halting: both tapes used up and both commitments those of the tapes: `er` *)
(* the root of the hints, `cr` the root of the cast                          *)
CanHalt(er, cr) == /\ ci = Len(tp.calls) /\ ei = Len(tp.hints)
           /\ tp.evc = er /\ tp.clc = cr
Halt(er, cr) == on = "running" /\ CanHalt(er, cr) /\ on' = "halted" /\ UNCHANGED <<tp, ci, ei, seen, pos>>
Abort == on = "running" /\ on' = "aborted" /\ UNCHANGED <<tp, ci, ei, seen, pos>>
=============================================================================
