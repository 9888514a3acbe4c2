---------------------------- MODULE SwarmTrace -----------------------------
(* Trace validation: rounds in which several peers send at the same moment. *)
(* While a message is handled the others may add blocks, so the chain that  *)
(* a connection looks at is any of those between the one before the round   *)
(* and the one after it, later looks never at an earlier one.  All blocks   *)
(* are those of the main chain: the chain is its length.                    *)
EXTENDS Peer, IOUtils

VARIABLES h, r, k, c, added
tvars == <<h, r, k, c, added>>
Histories == JsonDeserialize(IOEnv.VERIF_HISTORIES)
Rounds == Histories[h].rounds
N == Histories[h].n

Chain(l) == Seq1(1, l)
Known(l, b) == b <= l
None0 == {}
O(x, out, add) == [s |-> x, out |-> out, add |-> add]
Closed(x) == [Shut(x).s EXCEPT !.st = "closed"]

\* what follows when a synchronisation is required, seen at length lo or later
Starts(x, out, lo, B) == IF x.st = "required" THEN {O([x EXCEPT !.st = "syncing"], out \o <<AskChain(Chain(l))>>, {}) : l \in lo..B}
                         ELSE {O(x, out, {})}
Synced0(x, m, l) == IF x.st = "syncing" THEN [x EXCEPT !.remote = m.h]
                    ELSE IF Known(l, m.top) THEN [x EXCEPT !.st = "normal", !.remote = m.h]
                    ELSE [x EXCEPT !.st = "required", !.remote = m.h]
Greets(x, m, kind, A, B) == UNION {UNION {Starts(Synced0(x, m, l1), <<Answer(kind, Chain(l2))>>, l2, B) : l2 \in l1..B} : l1 \in A..B}

\* nothing is left to be requested, seen at length lo or later
Over(x, lo, B, add) == IF x.last + 1 < x.remote THEN {O([x EXCEPT !.needed = <<>>], <<AskChain(Chain(l))>>, add) : l \in lo..B}
                       ELSE {O([x EXCEPT !.needed = <<>>, !.st = "normal"], <<>>, add)}
Asks(x, ids, add) == O([x EXCEPT !.needed = <<>>, !.req = @ \o ids], <<AskBlocks(ids)>>, add)

Announced(x, m, A, B) ==
  LET n == Len(m.ids)
      last == m.start + n - 1
      y == [x EXCEPT !.remote = m.total, !.last = last, !.req = <<>>, !.needed = <<>>]
      prefix(l) == Cardinality({i \in 1..n : Known(l, m.ids[i])})   \* ids ascend
  IN IF last > m.total THEN {O(Closed(x), <<>>, {})}
     ELSE UNION {IF p = n THEN Over(y, A, B, {}) ELSE {Asks(y, SubSeq(m.ids, p + 1, n), {})} : p \in prefix(A)..prefix(B)}

\* the blocks of a delivery, one after the other: [l, v, add]
RECURSIVE Adds(_, _, _, _)
Adds(bl, lo, B, add) ==
  IF bl = <<>> THEN {[l |-> lo, v |-> "all", add |-> add]}
  ELSE LET e == Head(bl)
       IN UNION {IF Known(l, e.b) THEN {[l |-> l, v |-> "exists", add |-> add]}
                 ELSE IF e.b = l + 1 /\ e.bod = "right" THEN (IF l + 1 <= B THEN Adds(Tail(bl), l + 1, B, add \cup {e.b}) ELSE {})
                 ELSE {[l |-> l, v |-> "refused", add |-> add]} : l \in lo..B}
\* ascending sequence of a set of positions
Pos(q, S) == LET RECURSIVE F(_) F(i) == IF i > Len(q) THEN <<>> ELSE (IF i \in S THEN <<q[i]>> ELSE <<>>) \o F(i + 1) IN F(1)
Delivered(x, m, A, B) ==
  LET l == Left(x.req, m.bl)
  IN IF m.bl = <<>> \/ m.h < x.last \/ ~l.ok \/ l.left # <<>> THEN {O(Closed(x), <<>>, {})}
     ELSE UNION {CASE p.v = "refused" -> {O(Closed(x), <<>>, p.add)}
                   [] p.v = "exists" -> {O([x EXCEPT !.req = <<>>, !.needed = <<>>, !.remote = m.h, !.st = "idle"], <<>>, p.add)}
                   [] p.v = "all" ->
                        LET y == [x EXCEPT !.req = <<>>, !.remote = m.h]
                            must == {i \in 1..Len(x.needed) : ~Known(B, x.needed[i])}
                            may == {i \in 1..Len(x.needed) : ~Known(p.l, x.needed[i])}
                        IN UNION {IF S = {} THEN Over(y, p.l, B, p.add) ELSE {Asks(y, Pos(x.needed, S), p.add)}
                                  : S \in {must \cup T : T \in SUBSET (may \ must)}}
                 : p \in Adds(m.bl, A, B, {})}

Outcomes(x, m, A, B) ==
  CASE m.k = "nothing"   -> {O(x, <<>>, {})}
    [] m.k = "handshake" -> Greets(x, m, "handshake", A, B)
    [] m.k = "timedsync" -> Greets(x, m, "timedsync", A, B)
    [] m.k = "announce"  -> Announced(x, m, A, B)
    [] m.k = "deliver"   -> Delivered(x, m, A, B)

TInit == /\ s = 0 /\ env = 0 /\ act = 0
         /\ h \in 1..Len(Histories)
         /\ r = 1 /\ k = 1 /\ added = {}
         /\ c = [i \in 1..Histories[h].n |-> Fresh(0)]

Sent == Rounds[r].sent[k]
One == /\ r <= Len(Rounds) /\ k <= N
       /\ \E o \in Outcomes(c[k], Sent.m, Rounds[r].a, Rounds[r].b) :
            /\ o.out = Sent.out
            /\ (o.s.st = "closed") = Sent.closed
            /\ o.add \cap added = {}
            /\ c' = [c EXCEPT ![k] = o.s]
            /\ added' = added \cup o.add
       /\ k' = k + 1
       /\ UNCHANGED <<h, r, s, env, act>>
Round == /\ r <= Len(Rounds) /\ k = N + 1
         /\ added = (Rounds[r].a + 1)..Rounds[r].b
         /\ r' = r + 1 /\ k' = 1 /\ added' = {}
         /\ UNCHANGED <<h, c, s, env, act>>
TNext == One \/ Round
TSpec == TInit /\ [][TNext]_<<tvars, s, env, act>>
TView == tvars
Honest == \A i \in 1..N : Histories[h].kinds[i] = "honest" => c[i].st # "closed"
TEmit == (r = Len(Rounds) + 1) => PrintT(ToJson([explained |-> h]))
\* how far each history gets, for the report
TFar == (k = 1) => PrintT(ToJson([far |-> <<h, r>>]))
=============================================================================
