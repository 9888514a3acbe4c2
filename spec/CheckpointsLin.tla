--------------------------- MODULE CheckpointsLin ---------------------------
(* Trace validation of concurrent calls of the checkpoints: some order of    *)
(* the calls, respecting which returned before which began, explains them.   *)
EXTENDS Checkpoints, IOUtils
VARIABLES h, done
Histories == JsonDeserialize(IOEnv.VERIF_HISTORIES)
Calls == Histories[h]
LinInit == /\ points = [i \in Indexes |-> 0] /\ act = [op |-> "init"]
           /\ h \in 1..Len(Histories) /\ done = {}
Ready(i) == /\ i \notin done
            /\ \A j \in 1..Len(Calls) : j \notin done => ~(Calls[j].ret < Calls[i].inv)
Expected(c) == CASE c.op = "zone" -> InZone(c.i)
                 [] c.op = "check" -> CheckBlock(c.i, c.h)
                 [] c.op = "alt" -> AltAllowed(c.size, c.i)
Take(i) == LET c == Calls[i] IN
  /\ Ready(i)
  /\ IF c.op = "add" THEN Add(c.i, c.h) /\ act'.ok = c.ok
     ELSE c.ok = Expected(c) /\ UNCHANGED <<points, act>>
  /\ done' = done \cup {i}
  /\ UNCHANGED h
LinNext == \E i \in 1..Len(Calls) : Take(i)
LinSpec == LinInit /\ [][LinNext]_<<points, act, h, done>>
LinView == <<points, h, done>>
LinEmit == (done = 1..Len(Calls)) => PrintT(ToJson([linearized |-> h]))
=============================================================================
