---------------------------- MODULE GuestDesign ----------------------------
(***************************************************************************)
(* The guest's rules over all short tapes and all programs: a program that  *)
(* halts has done exactly what the tapes record of it, whatever it tried;   *)
(* and a program that does what its tapes record can go on to the end.      *)
(* Commitments are modelled by the committed values themselves.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxCalls, MaxHints
Null == "0"
Me == "A"
Others == {"B", "C"}
VARIABLES tp, ci, ei, seen, pos, on, did, emitted, read
G == INSTANCE Guest
vars == <<tp, ci, ei, seen, pos, on, did, emitted, read>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Args == {1, 2}
Calls == [caller : {Null, Me} \cup Others, callee : {Me} \cup Others, arg : Args, ret : {7}]
Evs == {[addr |-> 1, type |-> "w", value |-> 1], [addr |-> 1, type |-> "r", value |-> 1]}
Hints == {[addr |-> e.addr, type |-> e.type, value |-> e.value, at |-> k] : e \in Evs, k \in 0..(MaxHints)}
Mk(c, h, evc, clc, in) == [self |-> Me, calls |-> c, hints |-> h, evc |-> evc, clc |-> clc, in |-> [t |-> in]]
Root(x, ok) == [of |-> x, ok |-> ok]
CastOf(c) == {c[i].callee : i \in DOMAIN c}
Inputs == {<<>>, <<5>>, <<5, 6, 7>>}
Init == /\ did = <<>> /\ emitted = <<>> /\ read = <<>>
        /\ \/ \E c \in Seqs(Calls, MaxCalls), good \in BOOLEAN : G!InitGuest(Mk(c, <<>>, Root(<<>>, TRUE), Root(CastOf(c), good), <<>>))
           \/ \E c \in Seqs(Calls, 1), h \in Seqs(Hints, MaxHints), good \in BOOLEAN :
                 G!InitGuest(Mk(c, h, Root(h, good), Root(CastOf(c), TRUE), <<>>))
           \/ \E in \in Inputs : G!InitGuest(Mk(<<>>, <<>>, Root(<<>>, TRUE), Root({}, TRUE), in))
Send == \E to \in {Me} \cup Others, a \in Args : G!Send(to, a) /\ did' = Append(did, <<"sent", to, a, G!SendAnswer>>) /\ UNCHANGED <<emitted, read>>
Receive == /\ G!Receive /\ UNCHANGED <<emitted, read>>
           /\ did' = IF G!Received = <<>> THEN did ELSE Append(did, <<"got", G!Received[1].caller, G!Received[1].arg, G!Received[1].ret>>)
Emit == \E e \in Evs : G!Emit(e) /\ emitted' = Append(emitted, e) /\ UNCHANGED <<did, read>>
Read == \E n \in 0..4 : G!Read("t", n) /\ read' = read \o G!ReadBytes("t", n) /\ UNCHANGED <<did, emitted>>
Halt == G!Halt(Root(tp.hints, TRUE), Root(G!Cast, TRUE)) /\ UNCHANGED <<did, emitted, read>>
Abort == G!Abort /\ UNCHANGED <<did, emitted, read>>
Next == Send \/ Receive \/ Emit \/ Read \/ Halt \/ Abort
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* what the call tape records of me, in order                                *)
RECURSIVE Share(_)
Share(c) == IF c = <<>> THEN <<>>
            ELSE LET x == c[1] IN
                 (IF x.caller = Me THEN <<<<"sent", x.callee, x.arg, x.ret>>>>
                  ELSE IF x.callee = Me THEN <<<<"got", x.caller, x.arg, x.ret>>>> ELSE <<>>) \o Share(SubSeq(c, 2, Len(c)))
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
CallsAreTheTapes == Prefix(did, Share(tp.calls))
AllCallsWhenHalted == on = "halted" => did = Share(tp.calls)
EventsWhenHalted == on = "halted" =>
   /\ Len(emitted) = Len(tp.hints)
   /\ {tp.hints[k].at + 1 : k \in DOMAIN tp.hints} = DOMAIN tp.hints
   /\ \A k \in DOMAIN emitted : LET h == tp.hints[tp.hints[k].at + 1]
                                IN emitted[k] = [addr |-> h.addr, type |-> h.type, value |-> h.value]
CommittedWhenHalted == on = "halted" => tp.evc = Root(tp.hints, TRUE) /\ tp.clc = Root(CastOf(tp.calls), TRUE)
ReadInOrder == Prefix(read, tp.in["t"])
(* nothing stands in the way of a program that follows its share of the tape *)
Quiet(c) == c.caller # Me /\ c.callee # Me
Reachable == \A i \in DOMAIN tp.calls : LET c == tp.calls[i] IN
    /\ c.caller = Me => i = 1 \/ ~Quiet(tp.calls[i - 1])
    /\ c.callee = Me => c.caller # Me /\ G!Casted(c.caller)
Mate == IF did = <<>> /\ Share(tp.calls) = <<>> THEN <<>>
        ELSE IF Len(did) = Len(Share(tp.calls)) THEN <<>> ELSE <<Share(tp.calls)[Len(did) + 1]>>
CanFollow == on = "running" /\ Reachable =>
   IF Mate = <<>> THEN G!CanReceive
   ELSE IF Mate[1][1] = "sent" THEN G!CanSend(Mate[1][2], Mate[1][3]) ELSE G!CanReceive
=============================================================================
