------------------------------- MODULE Chain -------------------------------
(* The block chain as its users see it: a sequence of linked blocks that    *)
(* grows at its end.  One action, Offer, is one call of AddBlock: a block   *)
(* together with the transaction bodies delivered for it.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Checkpoint, \* id of the block whose hash is checkpointed, or ""
          FarZone     \* TRUE: a checkpoint far above covers every block here

VARIABLES chain,     \* ids of the blocks on the chain, above the base block
          act        \* the last offer and its verdict (observation only)

vars == <<chain, act>>

Base == "T0"
Unknown == "??"

(* The universe: par names the predecessor, rel the index in the coinbase   *)
(* relative to the base block, txs the transactions listed, why the rule    *)
(* the block breaks whatever the chain is ("" if none).                     *)
B(id, par, rel, txs, why) == [id |-> id, par |-> par, rel |-> rel, txs |-> txs, why |-> why]

Blocks == {
  B("A1", Base, 1, <<1>>, ""),
  B("A2", "A1", 2, <<>>, ""),
  B("A3", "A2", 3, <<2, 3>>, ""),
  B("A4", "A3", 4, <<>>, ""),
  B("B1", Base, 1, <<>>, ""),
  B("B2", "B1", 2, <<1>>, ""),
  B("B3", "B2", 3, <<>>, ""),
  B("C2", "A1", 2, <<2>>, ""),
  B("C3", "C2", 3, <<3>>, ""),
  B("E3", "B2", 3, <<2>>, ""),
  \* transactions confirmed before
  B("D2", "A1", 2, <<1>>, ""),
  B("D3", "A2", 3, <<1>>, ""),
  B("D4", "A3", 4, <<4, 3>>, ""),
  \* the same transaction twice, the same key image twice
  B("T1", Base, 1, <<2, 2>>, "twice"),
  B("G1", Base, 1, <<1, 6>>, "keyimage"),
  \* refused late
  B("R1", Base, 1, <<1>>, "reward"),
  B("R2", "A1", 2, <<2>>, "reward"),
  B("F1", Base, 1, <<1, 5>>, "badtx"),
  B("F2", "A1", 2, <<2, 3, 5>>, "badtx"),
  \* refused early
  B("W1", Base, 1, <<1>>, "version"),
  B("V2", "A1", 2, <<2>>, "future"),
  B("U1", Base, 1, <<>>, "unlock"),
  \* coinbase indexes that do not follow the predecessor
  B("H1", Base, 2, <<>>, ""),
  B("L1", Base, 0, <<>>, ""),
  B("H2", "A1", 3, <<2>>, ""),
  B("L2", "A1", 1, <<2>>, ""),
  B("L3", "A2", 2, <<>>, ""),
  B("J1", Base, 257, <<>>, ""),
  B("K1", Base, 65537, <<>>, ""),
  B("J2", "A1", 65538, <<2>>, ""),
  B("K2", "A1", 16777218, <<>>, ""),
  \* predecessors nobody has
  B("O1", Unknown, 1, <<>>, ""),
  B("O2", Unknown, 2, <<1>>, "") }

Ids == {b.id : b \in Blocks}
Get(id) == CHOOSE b \in Blocks : b.id = id

(* How the bodies are delivered. *)
Modes(b) == {"right", "extra"} \cup
            (IF Len(b.txs) > 0 THEN {"missing", "garbage", "other"} ELSE {}) \cup
            (IF Len(b.txs) > 1 THEN {"swap"} ELSE {})

Range(s) == {s[i] : i \in 1..Len(s)}
On(id) == id = Base \/ id \in Range(chain)
Tip == IF chain = <<>> THEN Base ELSE chain[Len(chain)]
Confirmed == UNION {Range(Get(chain[i]).txs) : i \in 1..Len(chain)}

(* Spending transactions can only be accepted inside the checkpoint zone.   *)
Covered(b) == \/ b.txs = <<>> \/ FarZone
              \/ Checkpoint # "" /\ b.rel <= Get(Checkpoint).rel

CheckpointOk(b) == Checkpoint = "" \/ b.rel # Get(Checkpoint).rel \/ b.id = Checkpoint

Verdict(b, m) ==
  CASE On(b.id) -> "known"
    [] ~On(b.par) -> "orphan"
    [] b.par # Tip -> "competes"
    [] b.rel # Len(chain) + 1 -> "index"
    [] m # "right" -> "bodies"
    [] b.why # "" -> b.why
    [] Range(b.txs) \cap Confirmed # {} -> "confirmed"
    [] ~CheckpointOk(b) -> "checkpoint"
    [] ~Covered(b) -> "unverifiable"
    [] OTHER -> "accepted"

Init == chain = <<>> /\ act = [op |-> "init"]

Offer(b, m) ==
  LET v == Verdict(b, m) IN
  /\ chain' = IF v = "accepted" THEN Append(chain, b.id) ELSE chain
  /\ act' = [op |-> "offer", b |-> b.id, m |-> m, v |-> v]

Next == \E b \in Blocks : \E m \in Modes(b) : Offer(b, m)
Spec == Init /\ [][Next]_vars

View == chain

----------------------------------------------------------------------------
TypeOK == /\ Range(chain) \subseteq Ids
          /\ Checkpoint \in Ids \cup {""}

(* Every block follows the one before it, with the next index. *)
Linked == \A i \in 1..Len(chain) :
            /\ Get(chain[i]).par = IF i = 1 THEN Base ELSE chain[i-1]
            /\ Get(chain[i]).rel = i
(* No block and no transaction twice, nothing invalid. *)
NoneTwice == /\ Cardinality(Range(chain)) = Len(chain)
             /\ \A i, j \in 1..Len(chain) : i # j => Range(Get(chain[i]).txs) \cap Range(Get(chain[j]).txs) = {}
OnlyValid == \A i \in 1..Len(chain) : Get(chain[i]).why = "" /\ CheckpointOk(Get(chain[i]))

(* The chain only grows, by one block, and only by an accepted offer. *)
GrowsByOne == [][chain' = chain \/ (Len(chain') = Len(chain) + 1 /\ SubSeq(chain', 1, Len(chain)) = chain)]_chain
RefusedNoTrace == [][(act'.v # "accepted") <=> (chain' = chain)]_<<chain, act>>

ASSUME PrintT(ToJson([universe |-> Blocks]))
Emit == PrintT(ToJson([s |-> chain, a |-> act', t |-> chain']))
=============================================================================
