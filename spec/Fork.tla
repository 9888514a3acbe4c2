-------------------------------- MODULE Fork --------------------------------
(* The fork schedule: the height moves over all forks, the version and its  *)
(* parameters follow.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Forks == <<60000, 216000, 266000, 700000>>  \* last height of versions 1, 2, 3, 4
Last == 1000000

VARIABLES lo, hi, version
vars == <<lo, hi, version>>

Future(v) == IF v >= 4 THEN 720 ELSE 1680
TsWindow(v) == IF v >= 4 THEN 11 ELSE 60
DiffWindow(v) == CASE v = 1 -> 375 [] v = 2 -> 17 [] v \in {3, 4} -> 61 [] OTHER -> 121
Zone(v) == IF v = 1 THEN 100000 ELSE 1000000

Init == lo = 0 /\ hi = Forks[1] /\ version = 1
Upgrade == /\ version < 5
           /\ version' = version + 1
           /\ lo' = hi + 1
           /\ hi' = IF version' <= Len(Forks) THEN Forks[version'] ELSE Last
Next == Upgrade
Spec == Init /\ [][Next]_vars

(* Versions never fall, every height has exactly one. *)
Monotone == [][version' = version + 1 /\ lo' = hi + 1 /\ hi' >= lo']_vars
Bounds == lo <= hi /\ version \in 1..5
Emit == PrintT(ToJson([lo |-> lo, hi |-> hi, version |-> version, future |-> Future(version), tswindow |-> TsWindow(version),
                       diffwindow |-> DiffWindow(version), zone |-> Zone(version)]))
EmitState == Emit
=============================================================================
