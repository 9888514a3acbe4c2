-------------------------------- MODULE Wire --------------------------------
(* The binary format of transactions, blocks (versions 1 to 5, merge mined  *)
(* ones with their parent block) and extra fields, and what is hashed.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS What,     \* "tx", "block" or "extra"
          Rich      \* whether every byte is edited, or only those that are not hashes or keys
VARIABLES i, edit, verdict
vars == <<i, edit, verdict>>

(* ------------------------------------------------------------ numbers --- *)
(* A number is the sequence of its base 128 digits, the lowest first,       *)
(* without leading zeros.                                                   *)
RECURSIVE Num(_), Val(_)
Num(n) == IF n < 128 THEN <<n>> ELSE <<n % 128>> \o Num(n \div 128)
Val(d) == IF d = <<>> THEN 0 ELSE d[1] + 128 * Val(Tail(d))
VarInt(d) == [j \in 1..Len(d) |-> IF j < Len(d) THEN d[j] + 128 ELSE d[j]]
Max8 == <<127, 1>>  Max16 == <<127, 127, 3>>  Max32 == <<127, 127, 127, 127, 15>>
Max64 == <<127, 127, 127, 127, 127, 127, 127, 127, 127, 1>>
Fits(d, max) == Len(d) < Len(max) \/ (Len(d) = Len(max) /\ d[Len(d)] <= max[Len(max)])

(* ----------------------------------------------------------- encoding --- *)
(* An encoding is a sequence of pieces; "s" marks those that are structure, *)
(* "v" those that are values, "h" opaque keys, hashes and signatures.       *)
Pc(k, b) == <<[k |-> k, b |-> b]>>
S(d) == Pc("s", VarInt(d))
Byte(x) == Pc("t", <<x>>)
V(d) == Pc("v", VarInt(d))
H(b) == Pc("h", b)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Flat(ps) == Cat([j \in 1..Len(ps) |-> ps[j].b])
Map(s, F(_)) == [j \in 1..Len(s) |-> F(s[j])]

EncIn(x) == IF x.k = "coin" THEN Byte(255) \o V(x.idx)
            ELSE Byte(2) \o V(x.amt) \o S(Num(Len(x.offs))) \o Cat(Map(x.offs, V)) \o H(x.ki)
EncOut(x) == V(x.amt) \o Byte(2) \o H(x.key)
EncPrefix(t) == S(t.ver) \o V(t.unlock) \o S(Num(Len(t.ins))) \o Cat(Map(t.ins, EncIn))
                \o S(Num(Len(t.outs))) \o Cat(Map(t.outs, EncOut)) \o S(Num(Len(t.extra))) \o Pc("e", t.extra)
SigsOf(t) == Cat(Map(t.sigs, LAMBDA s : Cat(Map(s, H))))
EncTx(t) == EncPrefix(t) \o SigsOf(t)
MM(h) == h.major \in {<<2>>, <<3>>}
EncHead(h) == S(h.major) \o V(h.minor) \o (IF MM(h) THEN H(h.prev) ELSE V(h.ts) \o H(h.prev) \o Pc("h", h.nonce))
EncParentHead(p) == V(p.major) \o V(p.minor) \o V(p.ts) \o H(p.prev) \o Pc("h", p.nonce)
EncParentRest(p) == S(p.cnt) \o Cat(Map(p.branch, H)) \o EncPrefix(p.tx) \o Cat(Map(p.chain, H))
EncBlock(b) == EncHead(b) \o (IF b.major = <<5>> THEN H(b.sig) ELSE <<>>)
               \o (IF MM(b) THEN EncParentHead(b.parent) \o EncParentRest(b.parent) ELSE <<>>)
               \o EncTx(b.tx) \o S(Num(Len(b.hashes))) \o Cat(Map(b.hashes, H))

(* What is hashed: byte strings, roots and the length of it all.            *)
B(b) == [k |-> "bytes", b |-> b, hs |-> <<>>]
Root(hs) == [k |-> "root", b |-> <<>>, hs |-> hs]         \* tree hash of the transaction and the listed hashes
Fold(hs) == [k |-> "fold", b |-> <<>>, hs |-> hs]         \* the parent's transaction folded with its branch
PreBlock(b) == <<B(Flat(EncHead(b))), [Root(b.hashes) EXCEPT !.b = Flat(EncTx(b.tx))], B(VarInt(Num(Len(b.hashes) + 1)))>>
               \o (IF MM(b) THEN <<B(Flat(EncParentHead(b.parent))), [Fold(b.parent.branch) EXCEPT !.b = Flat(EncPrefix(b.parent.tx))],
                                   B(Flat(EncParentRest(b.parent)))>> ELSE <<>>)

(* ----------------------------------------------------------- decoding --- *)
No == [ok |-> FALSE, v |-> <<>>, p |-> 0, c |-> TRUE]
Yes(v, p, c) == [ok |-> TRUE, v |-> v, p |-> p, c |-> c]
RECURSIVE Digits(_, _, _)
Digits(b, p, acc) == IF p > Len(b) \/ Len(acc) = 10 THEN No
                     ELSE IF b[p] < 128 THEN Yes(Append(acc, b[p]), p + 1, TRUE) ELSE Digits(b, p + 1, Append(acc, b[p] - 128))
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d
DNum(b, p, max) == LET x == Digits(b, p, <<>>) IN
                   IF ~x.ok \/ ~Fits(x.v, Max64) \/ ~Fits(Strip(x.v), max) THEN No ELSE Yes(Strip(x.v), x.p, Strip(x.v) = x.v)
DRaw(b, p, n) == IF p + n - 1 > Len(b) THEN No ELSE Yes(SubSeq(b, p, p + n - 1), p + n, TRUE)
(* a count larger than what remains cannot be                               *)
DCount(b, p) == LET x == DNum(b, p, Max64) IN
                IF ~x.ok \/ Len(x.v) > 3 THEN No ELSE IF Val(x.v) > Len(b) THEN No ELSE Yes(Val(x.v), x.p, x.c)
RECURSIVE DSeq(_, _, _, _, _, _)
DSeq(b, p, n, D(_, _), acc, c) == IF n = 0 THEN Yes(acc, p, c)
                     ELSE LET x == D(b, p) IN IF ~x.ok THEN No ELSE DSeq(b, x.p, n - 1, D, Append(acc, x.v), c /\ x.c)
DMany(b, p, D(_, _)) == LET n == DCount(b, p) IN IF ~n.ok THEN No ELSE DSeq(b, n.p, n.v, D, <<>>, n.c)
D32(b, p) == DNum(b, p, Max32)
DHash(b, p) == DRaw(b, p, 32)
DIn(b, p) ==
  LET t == DRaw(b, p, 1) IN
  IF ~t.ok THEN No
  ELSE CASE t.v[1] = 255 -> (LET x == D32(b, t.p) IN IF x.ok THEN Yes([k |-> "coin", idx |-> x.v], x.p, x.c) ELSE No)
         [] t.v[1] = 2 ->
            (LET a == DNum(b, t.p, Max64)
                 o == IF a.ok THEN DMany(b, a.p, D32) ELSE No
                 k == IF o.ok THEN DHash(b, o.p) ELSE No
             IN IF k.ok THEN Yes([k |-> "key", amt |-> a.v, offs |-> o.v, ki |-> k.v], k.p, a.c /\ o.c) ELSE No)
         [] OTHER -> No
DOut(b, p) ==
  LET a == DNum(b, p, Max64)
      t == IF a.ok THEN DRaw(b, a.p, 1) ELSE No
      k == IF t.ok /\ t.v[1] = 2 THEN DHash(b, t.p) ELSE No
  IN IF k.ok THEN Yes([amt |-> a.v, key |-> k.v], k.p, a.c) ELSE No
DExtra(b, p) == LET n == DCount(b, p)
                    x == IF n.ok THEN DRaw(b, n.p, n.v) ELSE No IN IF x.ok THEN Yes(x.v, x.p, n.c) ELSE No
DPrefix(b, p) ==
  LET v == DNum(b, p, Max8)
      u == IF v.ok THEN DNum(b, v.p, Max64) ELSE No
      is == IF u.ok THEN DMany(b, u.p, DIn) ELSE No
      os == IF is.ok THEN DMany(b, is.p, DOut) ELSE No
      e == IF os.ok THEN DExtra(b, os.p) ELSE No
  IN IF e.ok THEN Yes([ver |-> v.v, unlock |-> u.v, ins |-> is.v, outs |-> os.v, extra |-> e.v, sigs |-> <<>>], e.p, v.c /\ u.c /\ is.c /\ os.c /\ e.c) ELSE No
Coinbase(t) == t.ins = <<>> \/ (Len(t.ins) = 1 /\ t.ins[1].k = "coin")
RECURSIVE DSigs(_, _, _, _)
DSigs(b, p, ins, acc) ==
  IF ins = <<>> THEN Yes(acc, p, TRUE)
  ELSE LET n == IF Head(ins).k = "coin" THEN 0 ELSE Len(Head(ins).offs)
           x == DSeq(b, p, n, LAMBDA bb, pp : DRaw(bb, pp, 64), <<>>, TRUE)
       IN IF x.ok THEN DSigs(b, x.p, Tail(ins), Append(acc, x.v)) ELSE No
DTx(b, p) ==
  LET t == DPrefix(b, p) IN
  IF ~t.ok \/ ~Fits(t.v.ver, <<1>>) THEN No
  ELSE IF Coinbase(t.v) THEN t
  ELSE LET s == DSigs(b, t.p, t.v.ins, <<>>) IN IF s.ok THEN Yes([t.v EXCEPT !.sigs = s.v], s.p, t.c) ELSE No

(* Extra fields: padding, public keys, nonces, merge mining tags.           *)
Fld(k, b) == [k |-> k, b |-> b]
RECURSIVE DFields(_, _, _)
DFields(b, p, acc) ==
  IF p > Len(b) THEN Yes(acc, p, TRUE)
  ELSE CASE b[p] = 0 -> IF (\E q \in p..Len(b) : b[q] # 0) \/ Len(b) - p > 255 THEN No ELSE Yes(Append(acc, Fld("pad", <<Len(b) - p + 1>>)), Len(b) + 1, Len(b) - p + 1 <= 255)
         [] b[p] = 1 -> (LET k == DHash(b, p + 1) IN IF k.ok THEN DFields(b, k.p, Append(acc, Fld("key", k.v))) ELSE No)
         [] b[p] = 2 -> (LET n == DNum(b, p + 1, Max8)
                             x == IF n.ok THEN DRaw(b, n.p, Val(n.v)) ELSE No
                             r == IF x.ok THEN DFields(b, x.p, Append(acc, Fld("nonce", x.v))) ELSE No
                         IN IF r.ok THEN Yes(r.v, r.p, r.c /\ n.c) ELSE No)
         [] b[p] = 3 -> (LET n == DNum(b, p + 1, Max64)
                             d == IF n.ok /\ n.v = <<33>> THEN DRaw(b, n.p, 1) ELSE No
                             k == IF d.ok /\ d.v[1] < 128 THEN DHash(b, d.p) ELSE No
                             r == IF k.ok THEN DFields(b, k.p, Append(acc, Fld("mm", d.v \o k.v))) ELSE No
                         IN IF r.ok THEN Yes(r.v, r.p, r.c /\ n.c) ELSE No)
         [] OTHER -> No
RECURSIVE LastMM(_)
LastMM(fs) == IF fs = <<>> THEN 0 - 1 ELSE IF fs[Len(fs)].k = "mm" THEN fs[Len(fs)].b[1] ELSE LastMM(SubSeq(fs, 1, Len(fs) - 1))

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
DParent(b, p) ==
  LET ma == DNum(b, p, Max8)
      mi == IF ma.ok THEN DNum(b, ma.p, Max8) ELSE No
      ts == IF mi.ok THEN DNum(b, mi.p, Max64) ELSE No
      pr == IF ts.ok THEN DHash(b, ts.p) ELSE No
      no == IF pr.ok THEN DRaw(b, pr.p, 4) ELSE No
      cn == IF no.ok THEN DNum(b, no.p, Max16) ELSE No
      br == IF cn.ok THEN DSeq(b, cn.p, Log2(Val(cn.v)), DHash, <<>>, TRUE) ELSE No
      tx == IF br.ok THEN DPrefix(b, br.p) ELSE No
      fs == IF tx.ok THEN DFields(tx.v.extra, 1, <<>>) ELSE No
      dp == IF fs.ok THEN LastMM(fs.v) ELSE 0 - 1
      ch == IF dp >= 0 THEN DSeq(b, tx.p, dp, DHash, <<>>, TRUE) ELSE No
  IN IF ch.ok THEN Yes([major |-> ma.v, minor |-> mi.v, ts |-> ts.v, prev |-> pr.v, nonce |-> no.v, cnt |-> cn.v, branch |-> br.v, tx |-> tx.v, chain |-> ch.v],
                       ch.p, ma.c /\ mi.c /\ ts.c /\ cn.c /\ tx.c /\ fs.c) ELSE No
NoParent == [major |-> <<0>>, minor |-> <<0>>, ts |-> <<0>>, prev |-> <<>>, nonce |-> <<0, 0, 0, 0>>, cnt |-> <<0>>, branch |-> <<>>, tx |-> <<>>, chain |-> <<>>]
DBlock(b) ==
  LET ma == DNum(b, 1, Max8)
      mi == IF ma.ok /\ ma.v \in {<<1>>, <<2>>, <<3>>, <<4>>, <<5>>} THEN DNum(b, ma.p, Max8) ELSE No
      mm == ma.v \in {<<2>>, <<3>>}
      ts == IF ~mi.ok THEN No ELSE IF mm THEN Yes(<<0>>, mi.p, TRUE) ELSE DNum(b, mi.p, Max64)
      pr == IF ts.ok THEN DHash(b, ts.p) ELSE No
      no == IF ~pr.ok THEN No ELSE IF mm THEN Yes(<<0, 0, 0, 0>>, pr.p, TRUE) ELSE DRaw(b, pr.p, 4)
      sg == IF ~no.ok THEN No ELSE IF ma.v = <<5>> THEN DRaw(b, no.p, 64) ELSE Yes(<<>>, no.p, TRUE)
      pa == IF ~sg.ok THEN No ELSE IF mm THEN DParent(b, sg.p) ELSE Yes(NoParent, sg.p, TRUE)
      tx == IF pa.ok THEN DTx(b, pa.p) ELSE No
      hs == IF tx.ok THEN DMany(b, tx.p, DHash) ELSE No
  IN IF hs.ok THEN Yes([major |-> ma.v, minor |-> mi.v, ts |-> IF mm THEN pa.v.ts ELSE ts.v, prev |-> pr.v, nonce |-> IF mm THEN pa.v.nonce ELSE no.v,
                        sig |-> sg.v, parent |-> pa.v, tx |-> tx.v, hashes |-> hs.v], hs.p, ma.c /\ mi.c /\ ts.c /\ pa.c /\ tx.c /\ hs.c) ELSE No

(* ------------------------------------------------------------ objects --- *)
P(n, k) == [j \in 1..n |-> (k * 37 + 11 * j) % 256]
F(n) == [j \in 1..n |-> 255]
Z(n) == [j \in 1..n |-> 0]
Coin(x) == [k |-> "coin", idx |-> x]
Key(a, offs, k) == [k |-> "key", amt |-> a, offs |-> offs, ki |-> P(32, k)]
Out(a, k) == [amt |-> a, key |-> P(32, k)]
(* all inputs of a coinbase together need no signatures; otherwise each ring member has one *)
Tx(v, u, ins, outs, ex) == LET t == [ver |-> v, unlock |-> u, ins |-> ins, outs |-> outs, extra |-> ex, sigs |-> <<>>] IN
   IF Coinbase(t) THEN t
   ELSE [t EXCEPT !.sigs = [j \in 1..Len(ins) |-> IF ins[j].k = "coin" THEN <<>> ELSE [q \in 1..Len(ins[j].offs) |-> P(64, 10 * j + q)]]]
One == <<1>>
PubX == <<1>> \o P(32, 5)
NonceX(n) == <<2>> \o VarInt(Num(n)) \o P(n, 1)
MMX(d, k) == <<3, 33, d>> \o P(32, k)
Numbers == {<<0>>, <<1>>, <<127>>, <<0, 1>>, <<127, 1>>, <<0, 2>>, Max32, <<0, 0, 0, 0, 16>>, Max64, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>}
Mid == <<5, 3>>
TxSet ==
  {Tx(One, u, <<Coin(x)>>, <<>>, <<>>) : u \in Numbers, x \in {n \in Numbers : Fits(n, Max32)}}
  \cup {Tx(One, <<0>>, <<>>, <<Out(Mid, 1)>>, <<>>)} \cup {Tx(<<0>>, <<0>>, <<>>, <<>>, <<>>)}
  \cup {Tx(One, <<0>>, <<Key(a, <<o>>, 1)>>, <<Out(a, 2)>>, PubX) : a \in Numbers, o \in {n \in Numbers : Fits(n, Max32)}}
  \cup {Tx(One, Mid, <<Key(Mid, offs, 1)>>, <<>>, <<>>) : offs \in {<<>>, <<<<1>>, <<2>>>>, <<<<0>>, <<0>>, <<9, 9>>>>}}
  \cup {Tx(One, <<0>>, <<Key(Mid, <<<<1>>, <<2>>>>, 1), Key(<<7>>, <<<<3>>>>, 2)>>, <<Out(Mid, 3), Out(<<9>>, 4), Out(<<8, 8, 8>>, 5)>>, PubX \o NonceX(3))}
  \cup {Tx(One, <<0>>, <<Key(Mid, <<<<1>>>>, 1), Key(Mid, <<>>, 2), Key(<<7>>, <<<<3>>, <<1>>>>, 3)>>, <<Out(Mid, 3)>>, <<>>)}
  \cup {Tx(One, <<0>>, <<Coin(<<7>>), Key(Mid, <<<<1>>>>, 1)>>, <<>>, <<>>), Tx(One, <<0>>, <<Coin(<<7>>), Coin(<<8>>)>>, <<>>, <<>>)}
  \cup {Tx(One, <<0>>, <<Coin(<<1>>)>>, [j \in 1..n |-> Out(<<j>>, j)], P(n, 3)) : n \in {1, 2, 5}}
  \cup {Tx(One, <<0>>, <<Coin(<<1>>)>>, <<Out(Mid, 1)>>, P(n, 3)) : n \in {1, 127, 128, 130}}
Base(x, n) == Tx(One, <<11, 1>>, <<Coin(x)>>, [j \in 1..n |-> Out(<<5 + j, 9>>, j)], PubX)
HashSeq(n) == [j \in 1..n |-> P(32, 40 + j)]
Parent(cnt, depth, extra, outs) ==
  [major |-> <<1>>, minor |-> <<0>>, ts |-> <<9, 8, 7, 6>>, prev |-> P(32, 70), nonce |-> P(4, 2), cnt |-> cnt, branch |-> HashSeq(Log2(Val(cnt))),
   tx |-> Tx(<<2>>, <<60>>, <<Coin(<<7, 7>>)>>, [j \in 1..outs |-> Out(<<3>>, j)], extra), chain |-> HashSeq(depth)]
Block(ma, mi, ts, no, pa, tx, n) == LET mm == ma \in {<<2>>, <<3>>} IN
  [major |-> ma, minor |-> mi, ts |-> IF mm THEN pa.ts ELSE ts, prev |-> P(32, 60), nonce |-> IF mm THEN pa.nonce ELSE no,
   sig |-> IF ma = <<5>> THEN P(64, 9) ELSE <<>>, parent |-> IF mm THEN pa ELSE NoParent, tx |-> tx, hashes |-> HashSeq(n)]
Parents == {Parent(c, 0, MMX(0, 1), 1) : c \in {<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<7>>, <<0, 1>>, Max16}}
           \cup {Parent(<<2>>, d, x \o MMX(d, 1), 0) : d \in {0, 1, 3}, x \in {<<>>, PubX, NonceX(2)}}
           \cup {Parent(<<1>>, 1, MMX(3, 2) \o MMX(1, 1), 1), [Parent(<<1>>, 0, MMX(0, 1) \o Z(3), 1) EXCEPT !.major = Max8, !.minor = <<127>>, !.ts = <<0>>, !.nonce = Z(4)],
                 [Parent(<<5>>, 2, MMX(2, 1), 1) EXCEPT !.ts = Max64, !.nonce = F(4)]}
Plain == {<<1>>, <<4>>, <<5>>}
BlockSet ==
  {Block(m, <<0>>, ts, no, NoParent, Base(<<5>>, 1), 0) : m \in Plain, ts \in {<<0>>, <<1>>, <<1, 2, 3, 4, 5>>, Max64}, no \in {Z(4), P(4, 1), F(4)}}
  \cup {Block(m, mi, <<1, 2, 3, 4>>, P(4, 1), NoParent, Base(<<3, 3>>, 2), n) : m \in Plain, mi \in {<<0>>, <<1>>, Max8}, n \in {0, 1, 2, 3}}
  \cup {Block(m, <<0>>, <<9>>, P(4, 1), NoParent, Base(<<3, 3>>, 1), 5) : m \in Plain}
  \cup {Block(m, <<0>>, <<>>, <<>>, p, Base(<<9, 9>>, 1), n) : m \in {<<2>>, <<3>>}, p \in Parents, n \in {0, 1}}
  \cup {Block(m, <<1>>, <<>>, <<>>, Parent(<<3>>, 1, MMX(1, 1), 1), Base(<<9, 9>>, 2), 4) : m \in {<<2>>, <<3>>}}
  \cup {Block(m, <<0>>, <<7>>, P(4, 1), Parent(<<1>>, 0, MMX(0, 1), 1), t, 1) : m \in {<<1>>, <<3>>, <<5>>},
          t \in {Tx(One, <<0>>, <<>>, <<>>, <<>>), Tx(One, Mid, <<Key(Mid, <<<<1>>, <<2>>>>, 1)>>, <<Out(Mid, 2)>>, <<>>)}}
ExtraSet == {<<>>, PubX, NonceX(0), NonceX(1), NonceX(127), NonceX(128), NonceX(255), MMX(0, 1), MMX(1, 2), MMX(127, 2), PubX \o NonceX(4) \o MMX(2, 3),
             PubX \o Z(1), PubX \o Z(5), MMX(1, 1) \o PubX, Z(1), Z(2), Z(254), Z(255), Z(257), Z(300), NonceX(3) \o PubX, PubX \o NonceX(255) \o MMX(5, 1) \o Z(20),
             <<2>> \o VarInt(Num(256)) \o P(256, 1), <<2>> \o VarInt(Num(300)) \o P(300, 1), <<3, 34, 128, 1>> \o P(32, 1), <<3, 33, 128, 1>> \o P(32, 1), <<3, 32, 1>> \o P(31, 1),
             <<3, 33, 5>> \o P(31, 1), <<4>>, <<255>>, PubX \o <<4>>, PubX \o P(3, 0), <<3, 0>>, <<3, 161, 0, 1>> \o P(32, 1), <<2, 131, 0>> \o P(3, 1)}
RECURSIVE ToSeq(_)
ToSeq(Q) == IF Q = {} THEN <<>> ELSE LET x == CHOOSE x \in Q : TRUE IN <<x>> \o ToSeq(Q \ {x})
Cases == ToSeq(CASE What = "tx" -> TxSet [] What = "block" -> BlockSet [] What = "extra" -> ExtraSet)
Pieces == [j \in 1..Len(Cases) |-> CASE What = "tx" -> EncTx(Cases[j]) [] What = "block" -> EncBlock(Cases[j]) [] What = "extra" -> Pc("e", Cases[j])]
Encs == [j \in 1..Len(Cases) |-> Flat(Pieces[j])]
Dec(b) == CASE What = "tx" -> DTx(b, 1) [] What = "block" -> DBlock(b) [] What = "extra" -> DFields(b, 1, <<>>)

(* -------------------------------------------------------------- edits --- *)
E(at, del, ins) == [at |-> at, del |-> del, ins |-> ins]
Apply(b, e) == SubSeq(b, 1, e.at - 1) \o e.ins \o SubSeq(b, e.at + e.del, Len(b))
None == E(1, 0, <<>>)
RECURSIVE LenTo(_, _)
LenTo(ps, n) == IF n = 0 THEN 0 ELSE Len(ps[n].b) + LenTo(ps, n - 1)
Strange == {F(10), F(11), F(5) , <<255, 255, 255, 255, 15>>, <<255, 255, 255, 255, 127>>, [j \in 1..10 |-> IF j < 10 THEN 128 ELSE 1], <<255, 255, 3>>, <<128, 128, 4>>, <<129, 2>>,
            [j \in 1..10 |-> IF j < 10 THEN 255 ELSE 1], <<128, 128, 128, 1>>}
EditsAt(ps, n) ==
  LET at == LenTo(ps, n - 1) + 1 len == Len(ps[n].b) b == ps[n].b IN
  CASE ps[n].k \in {"s", "v"} ->
         {E(at, len, x) : x \in Strange} \cup {E(at, len, [b EXCEPT ![len] = @ + 128] \o z) : z \in {<<0>>, <<128, 0>>, <<2>>}}
         \cup {E(at, 1, <<x>>) : x \in {0, 1, 2, 3, 4, 5, 6, 127, (b[1] + 1) % 256, (b[1] + 255) % 256} \ {b[1]}}
    [] ps[n].k = "t" -> {E(at, 1, <<x>>) : x \in {0, 1, 2, 3, 4, 127, 128, 130, 254, 255} \ {b[1]}} \cup {E(at, 1, b \o <<0>>), E(at, 1, <<b[1]>> \o b)}
    [] ps[n].k = "h" -> {E(q, 1, <<(b[q - at + 1] + 1) % 256>>) : q \in IF Rich THEN at..(at + len - 1) ELSE {at, at + len - 1}} \cup {E(at, len, Z(len))}
    [] ps[n].k = "e" -> {E(at + q - 1, 1, <<x>>) : q \in 1..len, x \in {0, 1, 2, 3, 4, 255}}
EditsOf(j) ==
  LET b == Encs[j] n == Len(b) IN
  UNION {EditsAt(Pieces[j], q) : q \in 1..Len(Pieces[j])}
  \cup {E(q + 1, n - q, <<>>) : q \in IF Rich \/ n < 200 THEN 0..(n - 1) ELSE {q \in 0..(n - 1) : q % 7 = j % 7} \cup {n - 1}}
  \cup {E(n + 1, 0, <<0>>), E(n + 1, 0, <<7>>)}

Init == i \in 1..Len(Cases) /\ edit = None /\ verdict = [v |-> "valid", hash |-> FALSE]
(* "free": numbers with useless digits, bytes after the end, and the one    *)
(* length of padding about which implementations differ.                    *)
Decide(j, e) ==
  LET b == Apply(Encs[j], e) d == Dec(b) IN
  IF ~d.ok THEN [v |-> "refused", hash |-> FALSE]
  ELSE IF ~d.c \/ d.p # Len(b) + 1 \/ (What = "tx" /\ d.v.ver # One) \/ (What = "block" /\ d.v.tx.ver # One) THEN [v |-> "free", hash |-> FALSE]
  ELSE [v |-> "accepted", hash |-> IF What = "block" THEN PreBlock(d.v) # PreBlock(Cases[j]) ELSE TRUE]
Edit == /\ verdict.v = "valid"
        /\ \E e \in EditsOf(i) : Apply(Encs[i], e) # Encs[i] /\ edit' = e /\ verdict' = Decide(i, e)
        /\ UNCHANGED i
Next == Edit
Spec == Init /\ [][Next]_vars

(* Decoding an encoding gives the object back and uses all bytes.           *)
RoundTrip == verdict.v = "valid" => (What = "extra" \/ Dec(Encs[i]) = Yes(Cases[i], Len(Encs[i]) + 1, TRUE))
(* Encoding what was accepted gives the same bytes: no other representation *)
Canonical == verdict.v = "accepted" => LET b == Apply(Encs[i], edit) d == Dec(b) IN
                (What = "tx" => Flat(EncTx(d.v)) = b) /\ (What = "block" => Flat(EncBlock(d.v)) = b)
PrefixFree == (verdict.v # "valid" /\ edit.ins = <<>> /\ edit.at + edit.del - 1 = Len(Encs[i]) /\ What # "extra") => verdict.v = "refused"
EmitInit == verdict.v = "valid" =>
   PrintT(ToJson([i |-> i, val |-> IF What = "extra" THEN [fs |-> Dec(Cases[i]).v] ELSE Cases[i], b |-> Encs[i],
                  d |-> IF What # "extra" THEN "accepted" ELSE LET x == Dec(Cases[i]) IN IF ~x.ok THEN "refused" ELSE IF x.c THEN "accepted" ELSE "free",
                  pre |-> CASE What = "block" -> PreBlock(Cases[i]) [] OTHER -> <<>>]))
Emit == PrintT(ToJson([i |-> i, e |-> edit', d |-> verdict', x |-> IF What = "extra" /\ verdict'.v = "accepted" THEN Dec(Apply(Encs[i], edit')).v ELSE <<>>,
                        pre |-> IF What = "block" /\ verdict'.v = "accepted" /\ (Rich \/ Len(edit'.ins) >= 32) THEN PreBlock(Dec(Apply(Encs[i], edit')).v) ELSE <<>>]))
=============================================================================
