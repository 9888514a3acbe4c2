----------------------------- MODULE PeerStore -----------------------------
(* The peer store: the peers with a connection the node made itself and     *)
(* that answered (good), and the ones it heard of (grey), by their ids.     *)
(* Several peers may claim the same id.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

IdsV == <<1, 1, 2, 0, 18446744, 2>>
CONSTANT Ids      \* Ids[p] is the id peer p claims

VARIABLES white, grey,    \* peers on the lists
          act
vars == <<white, grey, act>>

Peers == 1..Len(Ids)
Id(p) == Ids[p]
IdsOf(ps) == {Id(p) : p \in ps}
Without(ps, p) == {q \in ps : Id(q) # Id(p)}

Init == white = {} /\ grey = {} /\ act = [op |-> "init", p |-> 0, ok |-> TRUE]

\* moving to a list takes the id off the other list; an id that is on the list already stays as it is
White(p) == LET ok == Id(p) # 0 /\ Id(p) \notin IdsOf(white)
            IN /\ grey' = Without(grey, p)
               /\ white' = IF ok THEN white \cup {p} ELSE white
               /\ act' = [op |-> "white", p |-> p, ok |-> ok]
Grey(p) == LET ok == Id(p) # 0 /\ Id(p) \notin IdsOf(grey)
           IN /\ white' = Without(white, p)
              /\ grey' = IF ok THEN grey \cup {p} ELSE grey
              /\ act' = [op |-> "grey", p |-> p, ok |-> ok]
Next == \E p \in Peers : White(p) \/ Grey(p)
Spec == Init /\ [][Next]_vars
View == <<white, grey>>

Entries == white \cup grey

Once == \A p, q \in Entries : p # q => Id(p) # Id(q)
OneList == IdsOf(white) \cap IdsOf(grey) = {}
NoZero == 0 \notin IdsOf(Entries)
MovedAway == [][\/ act'.op = "white" /\ Id(act'.p) \notin IdsOf(grey')
                \/ act'.op = "grey" /\ Id(act'.p) \notin IdsOf(white')]_vars
Arrived == [][act'.ok => act'.p \in (IF act'.op = "white" THEN white' ELSE grey')]_vars

K(w, g) == [white |-> w, grey |-> g]
Emit == PrintT(ToJson([s |-> K(white, grey), t |-> K(white', grey'), a |-> act']))
=============================================================================
