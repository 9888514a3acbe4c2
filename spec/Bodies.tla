------------------------------- MODULE Bodies -------------------------------
(* A block lists the hashes of its transactions; the bodies arrive next to  *)
(* it.  Which deliveries make the block acceptable?                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Txs,       \* transactions a block may list
          MaxLen,
          Confirmed, \* sets of transactions confirmed before the block
          SizeHeights

VARIABLES case, verdict
vars == <<case, verdict>>

(* What may stand for a body: the transaction itself, or an encoding of     *)
(* transaction 1 that is not canonical, cut or broken, or another one.      *)
Exact(t) == [t |-> t, how |-> "exact"]
Tokens == {Exact(t) : t \in Txs \cup {9}}
          \cup {[t |-> t, how |-> h] : t \in Txs, h \in {"trailing", "longvarint", "longcount", "highbits", "cut", "cutsig"}}
          \cup {[t |-> 0, how |-> h] : h \in {"garbage", "empty"}}

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
ExactSeq(l) == [i \in 1..Len(l) |-> Exact(l[i])]
Insert(s, i, x) == SubSeq(s, 1, i-1) \o <<x>> \o SubSeq(s, i, Len(s))
Drop(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
Deliveries(l) ==
  LET e == ExactSeq(l) n == Len(l) IN
    {e}
    \cup {[e EXCEPT ![i] = x] : i \in 1..n, x \in Tokens}
    \cup {Drop(e, i) : i \in 1..n}
    \cup {Insert(e, i, x) : i \in 1..(n+1), x \in Tokens}
    \cup {[e EXCEPT ![i] = e[j], ![j] = e[i]] : i \in 1..n, j \in 1..n}

Max(h) == 1000000 + (h * 512) \div 657   \* 102400/131400 = 512/657

Cases == {[kind |-> "bodies", listed |-> l, given |-> d, confirmed |-> c, h |-> 0, via |-> "", delta |-> 0] :
             l \in Seqs(Txs, MaxLen), d \in {<<>>}, c \in Confirmed}
SizeCases == {[kind |-> "size", listed |-> <<>>, given |-> <<>>, confirmed |-> {}, h |-> h, via |-> v, delta |-> d] :
             h \in SizeHeights, v \in {"coinbase", "bodies", "both"}, d \in {0, 1, 2, 1000}}

Init == /\ case \in Cases \cup SizeCases
        /\ verdict = "open"

Range(s) == {s[i] : i \in 1..Len(s)}
BodiesOk(c, d) ==
  /\ Len(d) = Len(c.listed)
  /\ \A i \in 1..Len(d) : d[i] = Exact(c.listed[i])
  /\ Cardinality(Range(c.listed)) = Len(c.listed)
  /\ Range(c.listed) \cap c.confirmed = {}
(* delta 0 is one below the limit, 1 exactly the limit                      *)
Size(c) == Max(c.h) + c.delta - 1
SizeOk(c) == Size(c) <= Max(c.h)

Deliver == /\ verdict = "open"
           /\ \/ /\ case.kind = "bodies"
                 /\ \E d \in Deliveries(case.listed) :
                       /\ case' = [case EXCEPT !.given = d]
                       /\ verdict' = IF BodiesOk(case, d) THEN "accepted" ELSE "refused"
              \/ /\ case.kind = "size"
                 /\ case' = case
                 /\ verdict' = IF SizeOk(case) THEN "accepted" ELSE "refused"
Next == Deliver
Spec == Init /\ [][Next]_vars

(* There is at most one delivery that makes a block acceptable. *)
Unique == (verdict = "accepted" /\ case.kind = "bodies") => case.given = ExactSeq(case.listed)
Emit == PrintT(ToJson([c |-> case', v |-> verdict', size |-> IF case.kind = "size" THEN Size(case) ELSE 0]))
=============================================================================
