----------------------------- MODULE StorageLin -----------------------------
(* Trace validation of concurrent calls of the storage, as in ChainLin.tla. *)
EXTENDS Storage, IOUtils
VARIABLES h, done
Histories == JsonDeserialize(IOEnv.VERIF_HISTORIES)
Calls == Histories[h]
LinInit == /\ stored = {Get("g")} /\ act = [op |-> "init", b |-> "g", c |-> "right", ok |-> TRUE]
           /\ h \in 1..Len(Histories) /\ done = {}
Ready(i) == /\ i \notin done
            /\ \A j \in 1..Len(Calls) : j \notin done => ~(Calls[j].ret < Calls[i].inv)
Expected(c) == CASE c.op = "top" -> Highest.id
                 [] c.op = "topindex" -> Highest.id
                 [] c.op \in {"have", "get"} -> (IF Get(c.b) \in stored THEN c.b ELSE "")
                 [] c.op = "at" -> At(Get(c.b).index)
                 [] c.op = "tx" -> (IF \E n \in Get(c.b).txs : n \in Confirmed THEN "yes" ELSE "")
Take(i) == LET c == Calls[i] IN
  /\ Ready(i)
  /\ IF c.op = "push" THEN Push(Get(c.b), c.c) /\ act'.ok = c.ok
     ELSE c.res = Expected(c) /\ UNCHANGED <<stored, act>>
  /\ done' = done \cup {i}
  /\ UNCHANGED h
LinNext == \E i \in 1..Len(Calls) : Take(i)
LinSpec == LinInit /\ [][LinNext]_<<stored, act, h, done>>
LinView == <<stored, h, done>>
LinEmit == (done = 1..Len(Calls)) => PrintT(ToJson([linearized |-> h]))
=============================================================================
