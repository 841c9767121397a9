----------------------------- MODULE GuestTrace -----------------------------
(***************************************************************************)
(* Recorded runs of a guest program in the real virtual machine must be     *)
(* behaviours of Guest.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Order

Trace == ndJsonDeserialize(IOEnv.TRACE)
Null == "0x0000000000000000000000000000000000000000000000000000000000000000"
VARIABLES l, names, tab, tp, ci, ei, seen, pos, on
H == INSTANCE Hashed
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
G == INSTANCE Guest
CastRoot == LET s == SetToSeq(G!Cast) IN H!CastRoot([i \in DOMAIN s |-> names[s[i]]])
EventRoot == H!EventRoot(tp.hints)
vars == <<l, names, tab, tp, ci, ei, seen, pos, on>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.ev = n /\ l' = l + 1
Kept == UNCHANGED <<names, tab>>

LE32(b) == b[1] + 256 * b[2] + 65536 * b[3]
(* what an input tape declares to hold                                      *)
Content(b) == SubSeq(b, 5, 4 + LE32(b))
Init == l = 1 /\ names = <<>> /\ tab = <<>>
        /\ G!InitGuest([self |-> Null, calls |-> <<>>, hints |-> <<>>, evc |-> <<>>, clc |-> <<>>, in |-> <<>>])
Tape == /\ Is("tape") /\ names' = Ev.names /\ tab' = Ev.hashes
        /\ G!Start([self |-> Ev.self, calls |-> Ev.calls, hints |-> Ev.hints, evc |-> Ev.evc, clc |-> Ev.clc,
                    in |-> [public |-> Content(Ev.public), private |-> Content(Ev.private)]])
Untouched(b, from) == \A i \in from..Len(b) : b[i] = 165
Op == /\ Is("op") /\ Kept /\ Ev.out.k = Ev.op.k
      /\ CASE Ev.op.k = "send" -> G!Send(Ev.op.to, Ev.op.arg) /\ Ev.out.ret = G!SendAnswer
           [] Ev.op.k = "receive" ->
                /\ G!Receive
                /\ IF Ev.out.none THEN G!Received = <<>>
                   ELSE /\ G!Received # <<>>
                        /\ LET c == G!Received[1] IN Ev.out.caller = c.caller /\ Ev.out.arg = c.arg /\ Ev.out.ret = c.ret
           [] Ev.op.k = "emit" -> G!Emit(H!Canon(Ev.op))
           [] Ev.op.k = "read" ->
                LET b == G!ReadBytes(Ev.op.tape, Ev.op.n) IN
                  /\ G!Read(Ev.op.tape, Ev.op.n)
                  /\ Ev.out.got = Len(b) /\ Len(Ev.out.buf) = Ev.op.n
                  /\ SubSeq(Ev.out.buf, 1, Len(b)) = b
                  /\ Untouched(Ev.out.buf, Len(b) + 1)
           [] Ev.op.k = "len" -> Ev.out.n = Len(tp.in[Ev.op.tape]) /\ on = "running" /\ G!Keep
(* an operation that is not carried out must be one that is not allowed      *)
Stuck == /\ Is("stuck") /\ Kept
         /\ CASE Ev.op.k = "send" -> ~G!CanSend(Ev.op.to, Ev.op.arg)
              [] Ev.op.k = "receive" -> ~G!CanReceive
              [] Ev.op.k = "emit" -> ~G!CanEmit(H!Canon(Ev.op))
              [] OTHER -> FALSE
         /\ G!Abort
(* it halts exactly when it may                                              *)
Stop == /\ Is("stop") /\ Kept /\ Ev.left = 0
        /\ \/ Ev.how = "halt" /\ Ev.all /\ G!Halt(EventRoot, CastRoot)
           \/ Ev.how = "abort" /\ Ev.all /\ ~G!CanHalt(EventRoot, CastRoot) /\ G!Abort
           \/ Ev.how = "abort" /\ ~Ev.all /\ on = "aborted" /\ G!Keep
Next == Tape \/ Op \/ Stuck \/ Stop
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
