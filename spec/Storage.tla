------------------------------- MODULE Storage -------------------------------
(* The storage of a chain, by itself: a map from indexes to blocks which     *)
(* only grows.  It does not know the rules of a chain; it keeps what it is   *)
(* given under the index and the hash of the block, once.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Blk(id, index, txs) == [id |-> id, index |-> index, txs |-> txs]
Blocks == {Blk("g", 0, {}), Blk("a1", 1, {1}), Blk("b1", 1, {2, 3}), Blk("a2", 2, {3}), Blk("b2", 2, {}), Blk("a4", 4, {1, 4}), Blk("a65541", 65541, {})}
Get(id) == CHOOSE b \in Blocks : b.id = id
Ids == {b.id : b \in Blocks}
Indexes == {b.index : b \in Blocks} \cup {3, 5, 65540, 256}
Claims == {"right", "index", "far", "hash", "hash0"}   \* what the information given with a block says

VARIABLES stored, act
vars == <<stored, act>>
At(i) == LET s == {b \in stored : b.index = i} IN IF s = {} THEN "" ELSE (CHOOSE b \in s : TRUE).id
Highest == CHOOSE b \in stored : \A c \in stored : c.index <= b.index
Confirmed == UNION {b.txs : b \in stored}

Init == stored = {} /\ act = [op |-> "new", b |-> "", c |-> "", ok |-> TRUE]
Push(b, c) == LET ok == c = "right" /\ \A d \in stored : d.index # b.index
              IN /\ stored' = IF ok THEN stored \cup {b} ELSE stored
                 /\ act' = [op |-> "push", b |-> b.id, c |-> c, ok |-> ok]
\* preparing the storage for a network stores its genesis block
Prepare == /\ Get("g") \notin stored
           /\ stored' = stored \cup {Get("g")}
           /\ act' = [op |-> "init", b |-> "g", c |-> "right", ok |-> TRUE]
Next == Prepare \/ \E b \in Blocks, c \in Claims : Push(b, c)
Spec == Init /\ [][Next]_vars
View == stored

OnePerIndex == \A b, c \in stored : b # c => b.index # c.index
Grows == [][stored \subseteq stored' /\ Cardinality(stored') <= Cardinality(stored) + 1]_vars
RefusedNoTrace == [][~act'.ok => stored' = stored]_vars
TopIsHighest == stored # {} => \A b \in stored : b.index <= Highest.index

RECURSIVE Num(_)
Num(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Num(S \ {x})
K(S) == {b.id : b \in S}
T == [ids |-> K(stored'), top |-> IF stored' = {} THEN "" ELSE (CHOOSE b \in stored' : \A c \in stored' : c.index <= b.index).id,
      txs |-> UNION {b.txs : b \in stored'}]
EmitInit == stored = {} => PrintT(ToJson([blocks |-> Blocks, indexes |-> Indexes]))
Emit == PrintT(ToJson([s |-> K(stored), t |-> K(stored'), a |-> act', o |-> T]))
=============================================================================
