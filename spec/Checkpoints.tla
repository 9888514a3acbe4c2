----------------------------- MODULE Checkpoints -----------------------------
(* The set of checkpoints and everything it decides.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Indexes,   \* heights checkpoints are added for
          Hashes,    \* hashes, 0 is "no checkpoint"
          Sizes,     \* chain sizes asked about
          Heights    \* heights asked about

VARIABLES points,    \* height -> hash or 0
          act
vars == <<points, act>>

Window == 10
Set == {i \in Indexes : points[i] # 0}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

InZone(i) == Set # {} /\ i <= Max(Set)
CheckBlock(i, h) == i \notin Set \/ points[i] = h
Reached(size) == {i \in Set : i <= size}
AltAllowed(size, i) ==
  /\ i # 0
  /\ (Reached(size) # {} => i > Max(Reached(size)))
  /\ ~(~InZone(i) /\ size > Window /\ i < size - Window)

Init == points = [i \in Indexes |-> 0] /\ act = [op |-> "init"]
Add(i, h) == LET ok == points[i] = 0 IN
             /\ points' = IF ok THEN [points EXCEPT ![i] = h] ELSE points
             /\ act' = [op |-> "add", i |-> i, h |-> h, ok |-> ok]
Next == \E i \in Indexes, h \in Hashes : Add(i, h)
Spec == Init /\ [][Next]_vars
View == points

NeverReplaced == [][\A i \in Indexes : points[i] # 0 => points'[i] = points[i]]_points
(* adding checkpoints never allows an alternative block at or below one *)
GenesisFixed == \A s \in Sizes : ~AltAllowed(s, 0)
Protected == \A s \in Sizes, i \in Heights : (\E p \in Set : p <= s /\ i <= p) => ~AltAllowed(s, i)
Shallow == \A s \in Sizes, i \in Heights : AltAllowed(s, i) => InZone(i) \/ i + Window >= s \/ s <= Window

Bit(b) == IF b THEN 1 ELSE 0
AsSeq(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m})
            IN F(S)
SizeSeq == AsSeq(Sizes)
HeightSeq == AsSeq(Heights)
Table == [points |-> [k \in 1..Len(AsSeq(Indexes)) |-> points[AsSeq(Indexes)[k]]],
          zone |-> [k \in 1..Len(HeightSeq) |-> Bit(InZone(HeightSeq[k]))],
          alt |-> [a \in 1..Len(SizeSeq) |-> [b \in 1..Len(HeightSeq) |-> Bit(AltAllowed(SizeSeq[a], HeightSeq[b]))]]]
EmitTable == PrintT(ToJson(Table))
Key(p) == [k \in 1..Len(AsSeq(Indexes)) |-> p[AsSeq(Indexes)[k]]]
Emit == PrintT(ToJson([s |-> Key(points), a |-> act', t |-> Key(points')]))
ASSUME PrintT(ToJson([indexes |-> AsSeq(Indexes), sizes |-> SizeSeq, heights |-> HeightSeq]))
=============================================================================
