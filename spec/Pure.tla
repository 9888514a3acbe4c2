-------------------------------- MODULE Pure --------------------------------
(* Calls that only compute, made by several goroutines at once. A call fills  *)
(* a place to work in, piece by piece, and then takes its result from there.  *)
(* As long as every call has a place of its own (Shared = FALSE) its result   *)
(* is the one it has alone, whatever else is being computed; with a place for *)
(* all (a buffer, a hash state, a table kept between calls) it is not.        *)
(*                                                                            *)
(* Every set of calls that can be under way at once is printed; the harness   *)
(* makes these calls at the same moment.                                      *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Procs,   \* the goroutines, 1 .. n
          NOps,    \* the number of functions
          Args,    \* the arguments, 1 .. m
          Shared   \* TRUE: they work in one place

Ops == 1..NOps
Slot(p) == IF Shared THEN 0 ELSE p
Slots == {Slot(p) : p \in Procs}
None == <<0, 0>>

\* The result of function o for argument a: a value of its own for each.
F(o, a) == <<o, a>>

VARIABLES pc,     \* "idle", "in", "half", "full", "out"
          call,   \* the function and the argument of each goroutine
          place,  \* what the places hold: the function and the argument they were filled from
          res

vars == <<pc, call, place, res>>

Init == /\ pc = [p \in Procs |-> "idle"]
        /\ call = [p \in Procs |-> None]
        /\ place = [s \in Slots |-> [o |-> 0, a |-> 0]]
        /\ res = [p \in Procs |-> None]

\* The goroutines are alike: the calls begin in order.
Begin(p) == /\ pc[p] = "idle"
            /\ \A q \in Procs : q < p => pc[q] /= "idle"
            /\ \E o \in Ops, a \in Args :
                 /\ p > 1 => (o > call[p-1][1] \/ (o = call[p-1][1] /\ a >= call[p-1][2]))
                 /\ call' = [call EXCEPT ![p] = <<o, a>>]
            /\ pc' = [pc EXCEPT ![p] = "in"]
            /\ UNCHANGED <<place, res>>

Half(p) == /\ pc[p] = "in"
           /\ place' = [place EXCEPT ![Slot(p)].o = call[p][1]]
           /\ pc' = [pc EXCEPT ![p] = "half"]
           /\ UNCHANGED <<call, res>>

Full(p) == /\ pc[p] = "half"
           /\ place' = [place EXCEPT ![Slot(p)].a = call[p][2]]
           /\ pc' = [pc EXCEPT ![p] = "full"]
           /\ UNCHANGED <<call, res>>

Return(p) == /\ pc[p] = "full"
             /\ res' = [res EXCEPT ![p] = F(place[Slot(p)].o, place[Slot(p)].a)]
             /\ pc' = [pc EXCEPT ![p] = "out"]
             /\ UNCHANGED <<call, place>>

Next == \E p \in Procs : Begin(p) \/ Half(p) \/ Full(p) \/ Return(p)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Every call returns what it returns alone,
Alone == \A p \in Procs : pc[p] = "out" => res[p] = F(call[p][1], call[p][2])
\* and all of them return.
Ends == <>(\A p \in Procs : pc[p] = "out")

\* The calls of a state in which all of them are under way.
Emit == (\A p \in Procs : pc'[p] = "in") => PrintT(ToJson([calls |-> [p \in Procs |-> call'[p]]]))
=============================================================================
