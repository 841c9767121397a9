------------------------------ MODULE SdkTrace ------------------------------
(***************************************************************************)
(* Recorded behaviour of the native SDK must be behaviour of Sdk.  Besides  *)
(* the action lines, a dump compares the whole system tape (written to disk *)
(* and read back), and single cases compare event lists and Merkle roots.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Order

Trace == ndJsonDeserialize(IOEnv.TRACE)
Null == "0x0000000000000000000000000000000000000000000000000000000000000000"
VARIABLES l, stack, open, calls, events, inputs
S == INSTANCE Sdk WITH Ids <- {}, Args <- {}, Rets <- {}, Events <- {}, Chunks <- {}, Kinds <- {"public", "private"}
vars == <<l, stack, open, calls, events, inputs>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.ev = n /\ l' = l + 1
Same == UNCHANGED <<stack, open, calls, events, inputs>>

-----------------------------------------------------------------------------
(* hashing: the table of what the code hashed, by input                      *)
Unknown == [i \in 1..32 |-> -1]
Lookup(inp) == LET t == Ev.hashes  m == {i \in DOMAIN t : t[i].inp = inp}
               IN IF m = {} THEN Unknown ELSE t[CHOOSE i \in m : TRUE].out
Zeros(n) == [i \in 1..n |-> 0]
Pad(d) == LET n == Len(d) + 1 IN d \o <<1>> \o Zeros((8 - (n % 8)) % 8)
JoinHash(l_, r_) == IF l_ = Unknown \/ r_ = Unknown THEN Unknown ELSE Lookup(l_ \o r_)
T == INSTANCE Tree WITH Bit <- BitLE, Join <- JoinHash
Root(leaves) == IF leaves = <<>> THEN Zeros(32) ELSE T!Trie(leaves, 63)
Canon(e) == [addr |-> e.addr, type |-> e.type, value |-> Lookup(Pad(e.data))]
EventHash(c) == Lookup(<<S!TypeRank(c.type)>> \o Zeros(7) \o c.addr \o c.value)
EventRoot(cs) == Root([i \in DOMAIN cs |-> <<cs[i].addr, EventHash(cs[i])>>])

HintsOk(sorted, place, hints) ==
  /\ Len(hints) = Len(sorted)
  /\ \A k \in DOMAIN sorted :
        /\ hints[k].addr = sorted[k].addr /\ hints[k].type = sorted[k].type
        /\ hints[k].value = sorted[k].value
        /\ hints[k].at = place[k] - 1
(* everything an event list reports about itself                             *)
ReportOk(list, rep) ==
  LET cs == [i \in DOMAIN list |-> Canon(list[i])]
      idx == SortIndex(cs, S!CanonLess)
      sorted == [k \in DOMAIN cs |-> cs[idx[k]]]
      place == S!PlaceOf(cs)
  IN /\ HintsOk(sorted, place, rep.hints) /\ Len(rep.temporal) = Len(list)
     /\ \A k \in DOMAIN list :
          /\ rep.temporal[k].event = list[k]
          /\ rep.temporal[k].at = idx[k] - 1
     /\ rep.root = EventRoot(sorted)

Init == l = 1 /\ S!InitSdk
Begin == Is("begin") /\ stack' = <<>> /\ open' = <<>> /\ calls' = <<>> /\ events' = <<>>
         /\ inputs' = [k \in {"public", "private"} |-> <<>>]
Send   == Is("send") /\ Ev.arg = Ev.seen /\ S!SendBegin(Ev.callee, Ev.arg)
Return == Is("return") /\ S!SendEnd(Ev.ret)
(* the caller gets what the resolver answered                                *)
Got    == Is("got") /\ l > 1 /\ Same /\ Trace[l - 1].ev = "return" /\ Trace[l - 1].ret = Ev.ret
Emit   == Is("emit") /\ IF Ev.ok THEN S!Emit(Ev.event) ELSE S!Refuse
Write  == Is("write") /\ LET k == IF Ev.public THEN "public" ELSE "private" IN
          IF Ev.ok THEN Ev.wrote = Len(Ev.bytes) /\ S!Write(k, Ev.bytes) ELSE S!Refuse
Add    == Is("add") /\ S!AddIdentity(Ev.id)
Rm     == Is("rm") /\ S!RmIdentity

ById(s, id) == LET m == {i \in DOMAIN s : s[i].id = id} IN IF m = {} THEN [none |-> TRUE] ELSE s[CHOOSE i \in m : TRUE]
IdsOf(s) == {s[i].id : i \in DOMAIN s}
InputOk(s, f) == /\ Cardinality(IdsOf(s)) = Len(s)
                 /\ \A id \in IdsOf(s) \cup DOMAIN f :
                      S!At(f, id) = (IF id \in IdsOf(s) THEN ById(s, id).bytes ELSE <<>>)
Dump == /\ Is("dump") /\ Same
        /\ stack = <<>> /\ open = <<>>
        /\ Ev.tape.calls = calls
        /\ InputOk(Ev.tape.public, inputs["public"]) /\ InputOk(Ev.tape.private, inputs["private"])
        /\ LET es == Ev.tape.events IN
             /\ Cardinality(IdsOf(es)) = Len(es)
             /\ \A id \in DOMAIN events : events[id] # <<>> => id \in IdsOf(es)
             /\ \A i \in DOMAIN es : ReportOk(S!At(events, es[i].id), es[i])
        /\ Ev.stable                          \* reading back changes nothing

(* what the command line hands program `who`: its share of the system tape   *)
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0>>
Prefixed(b) == LE32(Len(b)) \o b
Index(n) == <<n % 256, n \div 256, 0, 0, 0, 0, 0, 0>>
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
CastRoot(ids) == LET q == SetToSeq(ids)
                     s == StableSort([i \in DOMAIN q |-> Ev.names[q[i]]], LexLess)
                 IN Root([i \in DOMAIN s |-> <<Index(i - 1), s[i]>>])
Raw == /\ Is("raw") /\ Same /\ Ev.ok
       /\ Ev.self = Ev.who
       /\ Ev.calls = calls
       /\ Ev.public = Prefixed(S!At(inputs["public"], Ev.who))
       /\ Ev.private = Prefixed(S!At(inputs["private"], Ev.who))
       /\ LET list == S!At(events, Ev.who)
              cs == [i \in DOMAIN list |-> Canon(list[i])]
              idx == SortIndex(cs, S!CanonLess)
              sorted == [k \in DOMAIN cs |-> cs[idx[k]]]
          IN HintsOk(sorted, S!PlaceOf(cs), Ev.hints) /\ Ev.evc = EventRoot(sorted)
       /\ Ev.clc = CastRoot({calls[i].callee : i \in DOMAIN calls})
EventCase == /\ Is("events") /\ Same /\ Ev.got.ok
             /\ ReportOk(Ev.list, Ev.got.new) /\ ReportOk(Ev.list, Ev.got.pushed)
MerkleCase == Is("merkle") /\ Same /\ Ev.got.ok /\ Ev.got.root = Root(Ev.leaves)

Next == Begin \/ Send \/ Return \/ Got \/ Emit \/ Write \/ Add \/ Rm \/ Dump \/ Raw \/ EventCase \/ MerkleCase
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter - 1 = Len(Trace)
NoOwnerlessRecord == /\ Null \notin DOMAIN events
                     /\ \A k \in DOMAIN inputs : Null \notin DOMAIN inputs[k]
=============================================================================
