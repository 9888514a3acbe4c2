------------------------------- MODULE Sparse -------------------------------
(* The sparse chain of a node whose top index is top, as indexes.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Tops      \* top indexes to look at

VARIABLES top, list, step
vars == <<top, list, step>>

Init == top \in Tops /\ list = <<top>> /\ step = 1
(* Walk down from the top, doubling the distance, and end with genesis.     *)
Further == /\ step > 0 /\ step < top
           /\ list' = Append(list, top - step)
           /\ step' = step * 2
           /\ UNCHANGED top
Genesis == /\ step > 0 /\ ~(step < top)
           /\ list' = IF top = 0 THEN list ELSE Append(list, 0)
           /\ step' = 0
           /\ UNCHANGED top
Next == Further \/ Genesis
Spec == Init /\ [][Next]_vars

Pow2(n) == 2^n
Complete == step = 0
Descending == \A i \in 1..Len(list)-1 : list[i] > list[i+1]
EndsAtGenesis == Complete => list[Len(list)] = 0 /\ list[1] = top
(* logarithmically many *)
Short == Complete => \/ Len(list) <= 2
                     \/ Pow2(Len(list) - 3) < top
(* Whatever index f the fork is at, the best common entry is at most twice as deep. *)
Locates == Complete => \A f \in 0..(IF top > 600 THEN 600 ELSE top) :
             LET c == CHOOSE i \in 1..Len(list) : list[i] <= f /\ \A j \in 1..(i-1) : list[j] > f
             IN list[c] = 0 \/ top - list[c] <= 2 * (top - f)
Emit == (step' = 0) => PrintT(ToJson([top |-> top, list |-> list']))
=============================================================================
