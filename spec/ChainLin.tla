------------------------------ MODULE ChainLin ------------------------------
(* Trace validation: histories of concurrent calls recorded from the real   *)
(* chain, each call with the moments of its invocation and its return.  A   *)
(* history is accepted if the calls can be put in an order that respects    *)
(* real time and in which every call acts on Chain.tla at once.             *)
EXTENDS Chain, IOUtils, SequencesExt

VARIABLES h,       \* number of the history
          done     \* calls that have taken effect

Histories == JsonDeserialize(IOEnv.VERIF_HISTORIES)
Calls == Histories[h]

At(i) == IF i = 0 THEN Base ELSE chain[i]
RECURSIVE Down(_, _)
Down(n, k) == IF k >= n THEN <<>> ELSE <<At(n - k)>> \o Down(n, 2 * k)
SparseIds == LET n == Len(chain) IN <<At(n)>> \o Down(n, 1) \o (IF n > 0 THEN <<At(0)>> ELSE <<>>)

Expected(c) == CASE c.op = "top"    -> <<Tip>>
                 [] c.op = "height" -> <<ToString(Len(chain) + 1)>>
                 [] c.op = "have"   -> <<ToString(On(c.b))>>
                 [] c.op = "sparse" -> SparseIds

LinInit == Init /\ h \in 1..Len(Histories) /\ done = {}

Ready(i) == /\ i \notin done
            /\ \A j \in 1..Len(Calls) : j \notin done => ~(Calls[j].ret < Calls[i].inv)

Take(i) == LET c == Calls[i] IN
  /\ Ready(i)
  /\ IF c.op = "add"
     THEN /\ Offer(Get(c.b), c.m)
          /\ (act'.v = "accepted") = c.ok
     ELSE /\ c.res = Expected(c)
          /\ UNCHANGED <<chain, act>>
  /\ done' = done \cup {i}
  /\ UNCHANGED h

LinNext == \E i \in 1..Len(Calls) : Take(i)
LinSpec == LinInit /\ [][LinNext]_<<chain, act, h, done>>
LinView == <<chain, h, done>>

Complete == done = 1..Len(Calls)
LinEmit == Complete => PrintT(ToJson([linearized |-> h]))
=============================================================================
