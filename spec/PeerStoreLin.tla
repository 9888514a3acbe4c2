--------------------------- MODULE PeerStoreLin ----------------------------
(* Trace validation: histories of concurrent moves and listings, each call  *)
(* with the moments of its invocation and return.  A history is accepted if *)
(* the calls can be put in an order that respects real time and in which    *)
(* every call acts on PeerStore.tla at once.                                *)
EXTENDS PeerStore, IOUtils

VARIABLES h, done
Histories == JsonDeserialize(IOEnv.VERIF_HISTORIES)
Calls == Histories[h]
Listed(c) == {c.res[i] : i \in 1..Len(c.res)}

LinInit == Init /\ h \in 1..Len(Histories) /\ done = {}
Ready(i) == /\ i \notin done
            /\ \A j \in 1..Len(Calls) : j \notin done => ~(Calls[j].ret < Calls[i].inv)
Take(i) == LET c == Calls[i] IN
  /\ Ready(i)
  /\ CASE c.op = "white" -> White(c.p) /\ act'.ok = c.ok
       [] c.op = "grey"  -> Grey(c.p) /\ act'.ok = c.ok
       [] c.op = "list"  -> /\ Listed(c) = Entries /\ Len(c.res) = Cardinality(Entries)
                            /\ UNCHANGED <<white, grey, act>>
  /\ done' = done \cup {i}
  /\ UNCHANGED h
LinNext == \E i \in 1..Len(Calls) : Take(i)
LinSpec == LinInit /\ [][LinNext]_<<white, grey, act, h, done>>
LinView == <<white, grey, h, done>>
LinEmit == (done = 1..Len(Calls)) => PrintT(ToJson([linearized |-> h]))
=============================================================================
