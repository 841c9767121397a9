------------------------------ MODULE NodeState ------------------------------
(***************************************************************************)
(* The node's state: a finite map from addresses to objects, on which the   *)
(* transactions of the block being built place requests (read, delete,      *)
(* write).  `objs` is the state before the block, `req` what the block asks *)
(* for.  Closing the block applies every request and forgets them.          *)
(* Requests that contradict each other are refused.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT None          \* "there is no object"
VARIABLES objs, req    \* functions from the addresses in use

Old(a) == objs[a]
New(a) == CASE req[a].op = "delete" -> None
            [] req[a].op = "write" -> req[a].obj
            [] OTHER -> objs[a]
Touched == {a \in DOMAIN req : req[a].op # "no"}
Ask(op) == [op |-> op, obj |-> None]

(* what becomes of a request on an address; op "refused" if it is refused *)
AfterRead(r) == IF r.op = "no" THEN Ask("read") ELSE r
AfterDelete(o, r) == CASE r.op = "write" -> Ask("refused")
                       [] r.op = "read" /\ o = None -> r
                       [] OTHER -> Ask("delete")
AfterWrite(o, r, w) == CASE r.op = "write" -> IF r.obj = w THEN r ELSE Ask("refused")
                         [] r.op = "delete" -> Ask("refused")
                         [] OTHER -> [op |-> "write", obj |-> w]
After(o, r, what) == CASE what.op = "read" -> AfterRead(r)
                       [] what.op = "delete" -> AfterDelete(o, r)
                       [] what.op = "upsert" -> AfterWrite(o, r, what.obj)

Begin(as) == objs = [a \in as |-> None] /\ req = [a \in as |-> Ask("no")]
Refused(a, what) == After(objs[a], req[a], what) .op = "refused"
Apply(a, what) == /\ ~Refused(a, what)
                  /\ req' = [req EXCEPT ![a] = After(objs[a], @, what)]
                  /\ UNCHANGED objs
Finalize == /\ objs' = [a \in DOMAIN objs |-> New(a)]
            /\ req' = [a \in DOMAIN req |-> Ask("no")]
=============================================================================
