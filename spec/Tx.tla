-------------------------------- MODULE Tx --------------------------------
(* The rules a transaction of a block has to follow.  Amounts are numbers  *)
(* of up to twenty digits, written as sequences of digits, least           *)
(* significant first and without leading zeroes; the empty sequence is 0.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Heights, Extras, Rich

VARIABLES case, verdict
vars == <<case, verdict>>

----------------------------------------------------------------------------
(* Numbers *)
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxN(a, b) == IF a > b THEN a ELSE b
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > MaxN(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == At(a, i) + At(b, i) + c IN <<s % 10>> \o AddC(a, b, i + 1, s \div 10)
Add(a, b) == AddC(a, b, 1, 0)
RECURSIVE SubB(_, _, _, _)
SubB(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == 10 + At(a, i) - At(b, i) - c IN <<s % 10>> \o SubB(a, b, i + 1, IF s < 10 THEN 1 ELSE 0)
Sub(a, b) == Trim(SubB(a, b, 1, 0))      \* for b <= a
RECURSIVE LtAt(_, _, _)
LtAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtAt(a, b, i - 1)
Lt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LtAt(a, b, Len(a))
Le(a, b) == a = b \/ Lt(a, b)
RECURSIVE Num(_)
Num(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o Num(n \div 10)
Zeroes(k) == [i \in 1..k |-> 0]
Shift(a, k) == IF a = <<>> THEN <<>> ELSE Zeroes(k) \o a
E10(d, k) == Shift(<<d>>, k)             \* d * 10^k
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN <<>> ELSE Add(Head(s), Sum(Tail(s)))
MaxU64 == <<5,1,6,1,5,5,9,0,7,3,7,0,4,4,7,6,4,4,8,1>>
One == <<1>>

----------------------------------------------------------------------------
(* Policy of the heights *)
Units(n) == Shift(Num(n), 7)             \* n * 10^7
MinFee(h, extra) ==
  LET more == IF extra > 100 THEN extra - 100 ELSE 0 IN
  IF h <= 216394 THEN Units(10)
  ELSE IF h <= 266000 THEN Units(10000)
  ELSE IF h <= 500000 THEN Units(800)
  ELSE IF h < 667000 THEN Units(800 + 8 * more)
  ELSE Units(1000 + 10 * more)

Dust(h) == IF h < 266000 THEN 8 ELSE 0   \* digits below are not separated
RECURSIVE Digits(_, _)
Digits(a, i) == IF i > Len(a) THEN <<>>
                ELSE (IF a[i] = 0 THEN <<>> ELSE <<E10(a[i], i - 1)>>) \o Digits(a, i + 1)
Decomposed(a, d) ==
  LET low == Trim(SubSeq(a, 1, IF Len(a) < d THEN Len(a) ELSE d)) IN
  (IF low = <<>> THEN <<>> ELSE <<low>>) \o Digits(a, d + 1)
Pretty(a) == \E d \in 1..9 : \E k \in 0..19 : a = E10(d, k)

----------------------------------------------------------------------------
(* A transaction: inputs (amount, ring offsets, key image), outputs        *)
(* (amount, key), bytes of extra field and, if not 0, size it is padded to. *)
InSum(t) == Sum([i \in DOMAIN t.ins |-> t.ins[i].a])
OutSum(t) == Sum([i \in DOMAIN t.outs |-> t.outs[i].a])

InputsOk(t, seen) ==
  /\ t.ins # <<>>
  /\ \A i \in DOMAIN t.ins : t.ins[i].kind # "coinbase"           \* only the first transaction makes coins
  /\ \A i \in DOMAIN t.ins : t.ins[i].ring # <<>>
  /\ \A i \in DOMAIN t.ins : \A j \in 2..Len(t.ins[i].ring) : t.ins[i].ring[j] # 0
  /\ \A i, j \in DOMAIN t.ins : i # j => t.ins[i].ki # t.ins[j].ki
  /\ \A i \in DOMAIN t.ins : t.ins[i].ki \notin seen
  /\ Le(InSum(t), MaxU64)
OutputsOk(t, h) ==
  /\ t.outs # <<>>
  /\ \A i \in DOMAIN t.outs : t.outs[i].a # <<>> /\ t.outs[i].key = "ok"
  /\ h >= 700000 => \A i \in DOMAIN t.outs : Pretty(t.outs[i].a)
  /\ Le(OutSum(t), MaxU64)
Fusion(t, h) ==
  /\ InSum(t) = OutSum(t)
  /\ Len(t.ins) >= 12 /\ Len(t.ins) >= 4 * Len(t.outs)
  /\ h <= 216000 => t.size <= 300000
  /\ h < 266000 => \A i \in DOMAIN t.ins : Le(E10(1, 8), t.ins[i].a)
  /\ [i \in DOMAIN t.outs |-> t.outs[i].a] = Decomposed(InSum(t), Dust(h))
FeeOk(t, h) ==
  /\ Le(OutSum(t), InSum(t))
  /\ Fusion(t, h) \/ Le(MinFee(h, t.extra), Sub(InSum(t), OutSum(t)))
SizeOk(t, h) == h > 266000 => t.size <= 249400
MixinOk(t, h) == h > 216394 => \A i \in DOMAIN t.ins : Len(t.ins[i].ring) <= 20

(* zone: where the highest checkpoint is: "far" above, right "above" the   *)
(* block, "at" its height, right "below" it, or "none".                    *)
DomainOk(t, zone) == zone \notin {"far", "above"} => \A i \in DOMAIN t.ins : t.ins[i].kind = "ok"
VerifiedOk(t, zone) == zone \in {"far", "above", "at"}

TxOk(t, seen, c) == /\ SizeOk(t, c.h) /\ InputsOk(t, seen) /\ DomainOk(t, c.zone) /\ OutputsOk(t, c.h)
                    /\ FeeOk(t, c.h) /\ MixinOk(t, c.h) /\ VerifiedOk(t, c.zone)
Images(t) == {t.ins[i].ki : i \in DOMAIN t.ins}
RECURSIVE AllOk(_, _, _)
AllOk(ts, seen, c) == IF ts = <<>> THEN TRUE
                      ELSE TxOk(Head(ts), seen, c) /\ AllOk(Tail(ts), seen \union Images(Head(ts)), c)
Valid(c) == AllOk(c.txs, {}, c)

----------------------------------------------------------------------------
(* Cases *)
In(a, ki) == [a |-> a, ring |-> <<3>>, ki |-> ki, kind |-> "ok"]
Out(a) == [a |-> a, key |-> "ok"]
Big == E10(1, 16)
TT(ins, outs) == [ins |-> ins, outs |-> outs, extra |-> 0, size |-> 0]
Case(kind, h, txs) == [kind |-> kind, h |-> h, zone |-> "far", txs |-> txs]
Ample == E10(9, 15)                      \* a fee for every policy
Tx1(ki) == TT(<<In(Add(Big, Ample), ki)>>, <<Out(Big)>>)

FeeTx(fee, extra) == [TT(<<In(Add(Big, fee), 1)>>, <<Out(Big)>>) EXCEPT !.extra = extra]
FeeMarks(extra) == {MinFee(h, e) : h \in {1, 216395, 266001, 500001, 667000}, e \in {extra, 0, 101}}
FeeValues(extra) == UNION {{Sub(m, One), m, Add(m, One)} : m \in FeeMarks(extra)} \union {<<>>, One, Add(Big, Big), Ample}
FeeAll == UNION {FeeValues(x) : x \in Extras}
FeeLean == [e \in Extras |-> FeeValues(e)]
FeeCases == \E h \in Heights, e \in Extras : \E f \in (IF Rich THEN FeeAll ELSE FeeLean[e]) : case = Case("fee", h, <<FeeTx(f, e)>>)
(* the fee of a later transaction of the block is judged like that of the first *)
FeeLater == \E h \in Heights, f \in FeeLean[0] : case = Case("fee2", h, <<Tx1(7), FeeTx(f, 0)>>)

(* rings *)
Ring(n) == [i \in 1..n |-> IF i = 1 THEN 5 ELSE 1 + (i % 3)]
Rings == {Ring(n) : n \in {0, 1, 2, 19, 20, 21, 22, 40}} \union
         {<<0>>, <<0, 1>>, <<4, 0>>, <<4, 0, 1>>, <<4, 1, 0>>, <<0, 0>>} \union
         {[Ring(12) EXCEPT ![i] = 0] : i \in {1, 2, 7, 12}}
RingCases == \E h \in Heights, r \in Rings :
   \/ case = Case("ring", h, <<TT(<<[In(Add(Big, Ample), 1) EXCEPT !.ring = r]>>, <<Out(Big)>>)>>)
   \/ case = Case("ring", h, <<TT(<<In(Big, 1), In(Ample, 2), [In(Ample, 3) EXCEPT !.ring = r]>>, <<Out(Big)>>)>>)
   \/ case = Case("ring", h, <<TT(<<[In(Big, 1) EXCEPT !.ring = r], In(Ample, 2)>>, <<Out(Big)>>)>>)

(* key images: two or three transactions with up to three inputs each *)
Lay(ls) == [i \in DOMAIN ls |-> TT([j \in DOMAIN ls[i] |-> In(Add(Big, Ample), ls[i][j])], <<Out(Big)>>)]
Layouts == {<<a>> : a \in {<<1, 1>>, <<1, 2, 1>>, <<1, 2, 2>>, <<1, 2, 3>>, <<>>}}
     \union {<<<<a>>, <<b>>>> : a, b \in 1..2}
     \union {<<<<1, 2>>, <<b, c>>>> : b, c \in 1..4}
     \union {<<<<1>>, <<2>>, <<c>>>> : c \in 1..3}
     \union {<<<<1>>, <<2, 3>>, <<4, c, 5>>>> : c \in {1, 2, 3, 6}}
     \union {<<<<1>>, <<>>>>}
KeyImageCases == \E h \in Heights, l \in Layouts : case = Case("keyimage", h, Lay(l))

(* inputs of a coinbase in other transactions *)
Coin(i) == [a |-> <<>>, ring |-> <<>>, ki |-> 90 + i, kind |-> "coinbase"]
CoinCases == \E h \in Heights : \E ins \in {<<Coin(1)>>, <<Coin(1), In(Add(Big, Ample), 1)>>, <<In(Add(Big, Ample), 1), Coin(1)>>,
                                          <<Coin(1), Coin(2)>>, <<In(Big, 1), Coin(1), In(Ample, 2)>>, <<In(Add(Big, Ample), 1), In(Ample, 2)>>} :
   \/ case = Case("coinbase", h, <<TT(ins, <<Out(Big)>>)>>)
   \/ case = Case("coinbase", h, <<Tx1(7), TT(ins, <<Out(Big)>>)>>)

(* sums *)
Half == E10(1, 19)
Top1 == Sub(MaxU64, One)
SumCase(h, ins, outs) == Case("sum", h, <<TT([i \in DOMAIN ins |-> In(ins[i], i)], [i \in DOMAIN outs |-> Out(outs[i])])>>)
SumCases == UNION {{
    SumCase(h, <<Half, E10(8, 18), E10(4, 17)>>, <<Half>>),                          \* 1.84e19 fits
    SumCase(h, <<Half, Sub(MaxU64, Half)>>, <<Half>>),                               \* exactly the maximum
    SumCase(h, <<Half, Add(Sub(MaxU64, Half), One)>>, <<Half>>),                     \* one more
    SumCase(h, <<Half, Sub(MaxU64, Half), One>>, <<Half>>),
    SumCase(h, <<MaxU64, One, Add(Big, Ample)>>, <<Big>>),                           \* wraps to something that would do
    SumCase(h, <<MaxU64>>, <<Half>>),
    SumCase(h, <<MaxU64, MaxU64>>, <<Half>>),
    SumCase(h, <<<<>>, Add(Big, Ample)>>, <<Big>>),                                  \* an input of nothing
    SumCase(h, <<Add(Big, Ample), <<>>, <<>>>>, <<Big>>),
    SumCase(h, <<<<>>>>, <<One>>), SumCase(h, <<<<>>, <<>>>>, <<Big>>), SumCase(h, <<<<>>>>, <<>>), SumCase(h, <<MaxU64>>, <<>>),
    SumCase(h, <<Big>>, <<Big, Ample>>),                                             \* more out than in
    SumCase(h, <<Big>>, <<Add(Big, One)>>),
    SumCase(h, <<Big>>, <<E10(2, 16)>>),
    SumCase(h, <<Big>>, <<E10(2, 16), E10(1, 3)>>),
    SumCase(h, <<Big, Ample>>, <<Big, E10(1, 15)>>),
    SumCase(h, <<Add(Big, Ample)>>, <<Half, E10(8, 18), E10(4, 17), E10(4, 16), E10(6, 15)>>),  \* large, no wrap
    SumCase(h, <<Add(Big, Ample)>>, <<MaxU64, Add(Big, One)>>),                      \* outputs wrap to Big
    SumCase(h, <<Add(Big, Ample)>>, <<Half, E10(9, 18), E10(1, 16)>>),
    SumCase(h, <<Add(Big, Ample)>>, <<E10(9, 18), E10(9, 18), E10(9, 18), Big>>),
    SumCase(h, <<Half, E10(8, 18)>>, <<Half, E10(7, 18)>>)
  } : h \in Heights}

(* outputs *)
OutCase(h, outs) == Case("out", h, <<TT(<<In(Add(Add(Big, Big), Ample), 1)>>, outs)>>)
BadKey(a) == [a |-> a, key |-> "bad"]
OutCases == UNION {{
    OutCase(h, <<Out(<<>>), Out(Big)>>), OutCase(h, <<Out(Big), Out(<<>>)>>), OutCase(h, <<Out(Big), Out(<<>>), Out(One)>>),
    OutCase(h, <<BadKey(Big)>>), OutCase(h, <<Out(Big), BadKey(One)>>), OutCase(h, <<Out(One), BadKey(Big), Out(One)>>),
    OutCase(h, <<Out(Big), Out(Big)>>), OutCase(h, <<>>), Case("out", h, <<Tx1(5), TT(<<In(Ample, 6)>>, <<>>)>>)}
    \union {OutCase(h, <<Out(E10(d, k))>>) : d \in {1, 2, 5, 9}, k \in {0, 1, 7, 8, 9, 14, 15}}
    \union {OutCase(h, <<Out(Add(E10(d, k), E10(e, j)))>>) : d \in {1, 9}, k \in {1, 8, 15}, e \in {1, 5}, j \in {0, 7}}
    \union {OutCase(h, <<Out(Big), Out(Add(E10(1, 3), One))>>), OutCase(h, <<Out(Add(E10(1, 3), One)), Out(Big)>>), OutCase(h, <<Out(One), Out(<<1, 1>>), Out(One)>>)}
   : h \in Heights}

(* fusions: n inputs of amount a (and one of b), outputs the decomposition *)
(* or a near miss of it                                                    *)
FusIns(n, a, b) == [i \in 1..n |-> In(IF i = n THEN b ELSE a, i)]
Swap(s) == IF Len(s) < 2 THEN s ELSE <<s[2], s[1]>> \o SubSeq(s, 3, Len(s))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Merge(s) == IF Len(s) < 2 THEN s ELSE <<Add(s[1], s[2])>> \o SubSeq(s, 3, Len(s))
SplitLast(s) == IF s = <<>> \/ s[Len(s)] = One THEN s
                ELSE LET l == s[Len(s)] IN SubSeq(s, 1, Len(s) - 1) \o <<Sub(l, E10(1, Len(l) - 1)), E10(1, Len(l) - 1)>>
Outs(s) == LET t == SelectSeq(s, LAMBDA x : x # <<>>) IN [i \in DOMAIN t |-> Out(t[i])]
Drop1(s) == IF Len(s) < 2 THEN s ELSE Tail(s)
Ways == {"own", "other", "swap", "rev", "merge", "split", "less", "drop"}
FusOuts(way, s, h) ==
  LET own == Decomposed(s, Dust(h)) IN
  CASE way = "own" -> own
    [] way = "other" -> Decomposed(s, 8 - Dust(h))
    [] way = "swap" -> Swap(own)
    [] way = "rev" -> Rev(own)
    [] way = "merge" -> Merge(own)
    [] way = "split" -> SplitLast(own)
    [] way = "less" -> <<Sub(own[1], One)>> \o Tail(own)       \* a fee of one
    [] way = "drop" -> Drop1(own)
FusAmounts == {<<E10(1, 9), E10(1, 9)>>, <<E10(1, 8), E10(1, 8)>>, <<E10(1, 8), Sub(E10(1, 8), One)>>, <<E10(5, 8), Add(E10(5, 8), <<7, 0, 3>>)>>,
               <<E10(1, 9), Add(E10(1, 9), E10(1, 3))>>, <<E10(2, 7), E10(2, 7)>>, <<E10(1, 3), E10(9, 3)>>, <<E10(1, 12), Add(E10(3, 9), E10(2, 7))>>, <<One, <<2>>>>,
               <<E10(8, 8), E10(1, 9)>>}
FusCounts == {11, 12, 13, 15, 16, 20, 40}
Fus(h, n, ab, way) ==
  LET ins == FusIns(n, ab[1], ab[2])
      s == Sum([i \in DOMAIN ins |-> ins[i].a])
  IN Case("fusion", h, <<TT(ins, Outs(FusOuts(way, s, h)))>>)
FusionCases == \E h \in Heights, n \in FusCounts, ab \in FusAmounts, w \in Ways : case = Fus(h, n, ab, w)
(* a fusion pays no fee, so the extra field is free; and it is no excuse for a second transaction *)
FusionMore == UNION {
    {[Fus(h, 12, <<E10(1, 9), E10(1, 9)>>, w) EXCEPT !.txs[1].extra = 400] : w \in {"own", "less"}}
    \union {[Fus(h, 12, <<E10(1, 9), E10(1, 9)>>, "own") EXCEPT !.txs = @ \o <<TT(<<In(Big, 50)>>, <<Out(Big)>>)>>]}
  : h \in Heights}

(* sizes, reached by padding the extra field *)
Sizes == {249399, 249400, 249401, 299999, 300000, 300001}
SizeCases == UNION {{Case("size", h, <<[t EXCEPT !.size = s]>>) : s \in Sizes,
              t \in {TT(<<In(Add(Big, Add(Big, Big)), 1)>>, <<Out(Big)>>), Fus(h, 12, <<E10(1, 9), E10(1, 9)>>, "own").txs[1]}} : h \in Heights}

(* verification around the end of the checkpoint zone *)
KiKinds == {"ok", "minus", "order2", "order4", "order8", "offcurve"}
VerifyCases == \E h \in Heights :
   \/ \E k \in KiKinds, z \in {"far", "above", "at", "below", "none"} :
        case = [Case("verify", h, <<TT(<<[In(Big, 1) EXCEPT !.kind = k], In(Ample, 2)>>, <<Out(Big)>>)>>) EXCEPT !.zone = z]
   \/ \E k \in {"ok", "minus"}, z \in {"above", "at", "none"} :
        case = [Case("verify", h, <<Tx1(9), TT(<<In(Big, 2), [In(Ample, 1) EXCEPT !.kind = k]>>, <<Out(Big)>>)>>) EXCEPT !.zone = z]

Init == /\ verdict = "open"
        /\ \/ "fee" \in Kinds /\ (FeeCases \/ FeeLater)
           \/ "ring" \in Kinds /\ RingCases
           \/ "keyimage" \in Kinds /\ KeyImageCases
           \/ "coinbase" \in Kinds /\ CoinCases
           \/ "sum" \in Kinds /\ case \in SumCases
           \/ "out" \in Kinds /\ case \in OutCases
           \/ "fusion" \in Kinds /\ (FusionCases \/ case \in FusionMore)
           \/ "size" \in Kinds /\ case \in SizeCases
           \/ "verify" \in Kinds /\ VerifyCases
Next == /\ verdict = "open"
        /\ verdict' = IF Valid(case) THEN "accepted" ELSE "refused"
        /\ UNCHANGED case
Spec == Init /\ [][Next]_vars

(* Whatever is accepted conserves money and spends each key image once. *)
Conserved == verdict = "accepted" => \A i \in DOMAIN case.txs : Le(OutSum(case.txs[i]), InSum(case.txs[i]))
SpentOnce == verdict = "accepted" => \A i, j \in DOMAIN case.txs : i # j => Images(case.txs[i]) \intersect Images(case.txs[j]) = {}
(* Decompositions add up. *)
AddsUp == (verdict = "open" /\ case.kind = "fusion") => \A i \in DOMAIN case.txs : \A d \in {0, 8} : Sum(Decomposed(InSum(case.txs[i]), d)) = InSum(case.txs[i])
Emit == PrintT(ToJson([c |-> case, v |-> verdict']))
=============================================================================
