--------------------------------- MODULE Kv ---------------------------------
(* The portable storage (key-value) format of CryptoNote: bytes of a value  *)
(* of a given type, and which byte strings are read back as which value.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS What,      \* "format": arbitrary types; "messages": those of the protocol
          Edits,     \* "all" or "few": how many edits of each encoding are decided
          Long       \* whether values with two and four byte lengths take part

VARIABLES i, edit, verdict
vars == <<i, edit, verdict>>

(* ------------------------------------------------------------- types ---- *)
Prim(tag, w) == [k |-> "prim", tag |-> tag, w |-> w]
I64 == Prim(1, 8)  I32 == Prim(2, 4)  I16 == Prim(3, 2)  I8 == Prim(4, 1)
U64 == Prim(5, 8)  U32 == Prim(6, 4)  U16 == Prim(7, 2)  U8 == Prim(8, 1)
F64 == Prim(9, 8)  Bool == Prim(11, 1)
Str == [k |-> "str"]
Blob(el) == [k |-> "blob", el |-> el]      \* a sequence of fixed size items without lengths
Fix(n) == [k |-> "fix", n |-> n]
Arr(t) == [k |-> "arr", of |-> t]
Fld(n, t) == [n |-> n, t |-> t, opt |-> FALSE]
Opt(n, t) == [n |-> n, t |-> t, opt |-> TRUE]
Obj(f) == [k |-> "obj", f |-> f]

Tag0(t) == CASE t.k = "prim" -> t.tag [] t.k \in {"str", "blob", "fix"} -> 10 [] t.k = "obj" -> 12
Tag(t) == IF t.k = "arr" THEN 128 + Tag0(t.of) ELSE Tag0(t)

(* A value is a byte string, or the sequence of the values of its elements  *)
(* or fields.                                                               *)
Zeros(n) == [j \in 1..n |-> 0]
RECURSIVE Default(_), IsZero(_, _)
Default(t) == CASE t.k = "prim" -> Zeros(t.w) [] t.k = "fix" -> Zeros(t.n) [] t.k \in {"str", "blob", "arr"} -> <<>>
                [] t.k = "obj" -> [j \in 1..Len(t.f) |-> Default(t.f[j].t)]
IsZero(t, v) == v = Default(t)

(* ---------------------------------------------------------- encoding ---- *)
VarInt(n) == IF n <= 63 THEN <<4*n>>
             ELSE IF n <= 16383 THEN <<(4*n + 1) % 256, (4*n + 1) \div 256>>
             ELSE <<(4*n + 2) % 256, ((4*n + 2) \div 256) % 256, ((4*n + 2) \div 65536) % 256, (4*n + 2) \div 16777216>>
RECURSIVE Flat(_), EncVal(_, _)
Flat(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1]
           ELSE Flat(SubSeq(s, 1, Len(s) \div 2)) \o Flat(SubSeq(s, Len(s) \div 2 + 1, Len(s)))
Present(t, v) == SelectSeq([j \in 1..Len(t.f) |-> j], LAMBDA j : ~(t.f[j].opt /\ IsZero(t.f[j].t, v[j])))
EncFld(f, v) == <<Len(f.n)>> \o f.n \o <<Tag(f.t)>> \o EncVal(f.t, v)
EncVal(t, v) ==
  CASE t.k = "prim" -> v
    [] t.k \in {"str", "blob", "fix"} -> VarInt(Len(v)) \o v
    [] t.k = "arr" -> VarInt(Len(v)) \o Flat([j \in 1..Len(v) |-> EncVal(t.of, v[j])])
    [] t.k = "obj" -> LET p == Present(t, v) IN VarInt(Len(p)) \o Flat([j \in 1..Len(p) |-> EncFld(t.f[p[j]], v[p[j]])])
Header == <<1, 17, 1, 1, 1, 1, 2, 1, 1>>
Enc(t, v) == Header \o EncVal(t, v)

(* ---------------------------------------------------------- decoding ---- *)
(* A result is [ok, v, p] with p the position after what was read.          *)
No == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Yes(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Bytes(b, p, n) == IF n < 0 \/ p + n - 1 > Len(b) THEN No ELSE Yes(SubSeq(b, p, p + n - 1), p + n)
Huge == 536870912
RECURSIVE LE(_)
LE(s) == IF s = <<>> THEN 0 ELSE LET r == LE(Tail(s)) IN IF r >= 2097152 THEN Huge ELSE s[1] + 256 * r
GetVarInt(b, p) ==
  IF p > Len(b) THEN No
  ELSE LET w == CASE b[p] % 4 = 0 -> 1 [] b[p] % 4 = 1 -> 2 [] b[p] % 4 = 2 -> 4 [] OTHER -> 8
           x == Bytes(b, p, w)
       IN IF ~x.ok THEN No ELSE LET n == LE(x.v) IN Yes(IF n >= Huge THEN Huge ELSE n \div 4, x.p)
RECURSIVE DecVal(_, _, _), DecArr(_, _, _, _, _), DecFlds(_, _, _, _, _)
DecArr(t, b, p, n, acc) ==
  IF n = 0 THEN Yes(acc, p)
  ELSE LET x == DecVal(t, b, p) IN IF ~x.ok THEN No ELSE DecArr(t, b, x.p, n - 1, Append(acc, x.v))
DecFlds(t, b, p, n, acc) ==
  IF n = 0 THEN Yes(acc, p)
  ELSE LET l == Bytes(b, p, 1)
           name == IF l.ok THEN Bytes(b, l.p, l.v[1]) ELSE No
           ids == IF name.ok THEN {j \in 1..Len(t.f) : t.f[j].n = name.v} ELSE {}
           tag == IF name.ok THEN Bytes(b, name.p, 1) ELSE No
       IN IF ~tag.ok \/ ids = {} THEN No
          ELSE LET j == CHOOSE j \in ids : TRUE
                   x == IF tag.v[1] = Tag(t.f[j].t) THEN DecVal(t.f[j].t, b, tag.p) ELSE No
               IN IF ~x.ok THEN No ELSE DecFlds(t, b, x.p, n - 1, [acc EXCEPT ![j] = x.v])
DecVal(t, b, p) ==
  CASE t.k = "prim" -> Bytes(b, p, t.w)
    [] t.k \in {"str", "blob", "fix"} ->
         LET n == GetVarInt(b, p) IN
         IF ~n.ok \/ n.v >= Huge THEN No
         ELSE IF (t.k = "fix" /\ n.v # t.n) \/ (t.k = "blob" /\ n.v % t.el # 0) THEN No ELSE Bytes(b, n.p, n.v)
    [] t.k = "arr" -> LET n == GetVarInt(b, p) IN
         IF ~n.ok \/ n.v > Len(b) THEN No
         ELSE IF t.of.k = "prim" THEN LET x == Bytes(b, n.p, n.v * t.of.w) IN
              IF ~x.ok THEN No ELSE Yes([q \in 1..n.v |-> SubSeq(x.v, (q - 1) * t.of.w + 1, q * t.of.w)], x.p)
         ELSE DecArr(t.of, b, n.p, n.v, <<>>)
    [] t.k = "obj" -> LET n == GetVarInt(b, p) IN IF ~n.ok \/ n.v > Len(b) THEN No ELSE DecFlds(t, b, n.p, n.v, Default(t))
Dec(t, b) == IF Len(b) < 9 \/ SubSeq(b, 1, 9) # Header THEN No ELSE DecVal(t, b, 10)

(* ---------------------------------------------------- types and values -- *)
A == <<97>>  B == <<98>>  C == <<99, 95, 99>>
LongName == [j \in 1..255 |-> 97 + (j % 26)]
P(n) == [j \in 1..n |-> (7 * j) % 256]
F(n) == [j \in 1..n |-> 255]
Prims == <<I64, I32, I16, I8, U64, U32, U16, U8, F64>>
PrimVals(t) == {Zeros(t.w), [Zeros(t.w) EXCEPT ![1] = 1], [Zeros(t.w) EXCEPT ![t.w] = 128], F(t.w), P(t.w), [F(t.w) EXCEPT ![t.w] = 127]}
Small == {0, 1, 2, 63, 64, 65}
One(t, v) == [m |-> "", t |-> Obj(<<Fld(A, t)>>), v |-> <<v>>]
Items(el, n) == P(el * n)
Inner == Obj(<<Fld(A, U16), Opt(B, Str), Fld(C, Arr(U8))>>)
InnerVals == {<<<<1, 2>>, <<>>, <<>>>>, <<<<0, 0>>, P(3), <<<<9>>, <<8>>>>>>}
Hash == Fix(32)
RawBlock == Obj(<<Fld(<<98, 108>>, Blob(1)), Opt(<<116, 120>>, Arr(Blob(1)))>>)
CaseSet ==
  UNION {{One(Prims[j], v) : v \in PrimVals(Prims[j])} : j \in 1..Len(Prims)}
  \cup {One(Bool, <<x>>) : x \in {0, 1}}
  \cup {One(Str, P(n)) : n \in Small} \cup {One(Blob(1), P(n)) : n \in Small}
  \cup {One(Blob(el), Items(el, n)) : el \in {2, 4, 8, 12, 32}, n \in {0, 1, 2, 3}}
  \cup {One(Fix(n), P(n)) : n \in {1, 2, 16, 32, 64, 100}} \cup {One(Fix(32), Zeros(32))}
  \cup UNION {{One(Arr(t), [j \in 1..n |-> CHOOSE v \in PrimVals(t) : v[1] = IF j % 2 = 0 THEN 255 ELSE 7]) : n \in {0, 1, 2, 5}} :
          t \in {I64, I16, U64, U32, U8, F64}}
  \cup {One(Arr(Bool), [j \in 1..n |-> <<j % 2>>]) : n \in {0, 1, 3}}
  \cup {One(Arr(Str), [j \in 1..n |-> P(j - 1)]) : n \in {0, 1, 2, 4}}
  \cup {One(Arr(Blob(1)), [j \in 1..n |-> P(2 * j)]) : n \in {0, 1, 3}}
  \cup {One(Arr(Fix(4)), [j \in 1..n |-> P(4)]) : n \in {0, 1, 3}}
  \cup {One(Inner, v) : v \in InnerVals}
  \cup {One(Arr(Inner), s) : s \in {<<>>} \cup {<<v>> : v \in InnerVals} \cup {<<v, w>> : v \in InnerVals, w \in InnerVals}}
  \cup {One(Obj(<<Fld(A, Obj(<<Fld(A, Inner), Opt(B, Inner)>>))>>), <<<<v, w>>>>) : v \in InnerVals, w \in InnerVals \cup {Default(Inner)}}
  \cup {[m |-> "", t |-> Obj(<<Opt(A, U32), Opt(B, Str), Opt(C, Blob(32))>>), v |-> <<x, y, z>>] :
          x \in {Zeros(4), P(4)}, y \in {<<>>, P(5)}, z \in {<<>>, P(64)}}
  \cup {[m |-> "", t |-> Obj(<<Opt(A, Arr(U16)), Opt(B, Fix(8)), Opt(C, Bool), Opt(<<100>>, F64), Opt(<<>>\o<<101>>, Inner)>>), v |-> <<x, y, z, w, q>>] :
          x \in {<<>>, <<<<1, 2>>>>}, y \in {Zeros(8), P(8)}, z \in {<<0>>, <<1>>}, w \in {Zeros(8), <<0, 0, 0, 0, 0, 0, 240, 191>>}, q \in {Default(Inner)} \cup {<<<<1, 0>>, <<>>, <<>>>>}}
  \cup {[m |-> "", t |-> Obj(<<>>), v |-> <<>>], [m |-> "", t |-> Obj(<<Fld(LongName, U8)>>), v |-> <<<<5>>>>]}
  \cup {[m |-> "", t |-> Obj(<<Fld(A, Arr(RawBlock)), Fld(B, U32), Opt(C, Blob(32))>>), v |-> <<bs, <<1, 2, 3, 4>>, m>>] :
          bs \in {<<>>, <<<<P(3), <<>>>>>>, <<<<P(70), <<P(1), P(2)>>>>, <<P(4), <<P(66)>>>>>>}, m \in {<<>>, P(32)}}
LongSet == {One(Str, P(n)) : n \in {16382, 16383, 16384, 16385, 70000}} \cup {One(Blob(1), P(16384)), One(Blob(32), P(32 * 700))}
  \cup {One(Arr(U8), [j \in 1..n |-> <<j % 256>>]) : n \in {63, 64, 300, 16383, 16384}}
  \cup UNION {{One(Arr(t), [j \in 1..n |-> [q \in 1..t.w |-> (j + 3*q) % 256]]) : n \in {63, 64, 255, 256, 257}} : t \in {I64, I32, I16, U64, U32, U16, F64}}
  \cup {One(Arr(t), [j \in 1..16385 |-> [q \in 1..t.w |-> (j + 3*q) % 256]]) : t \in {I16, U16, U32, U64}}
  \cup {One(Arr(Bool), [j \in 1..n |-> <<j % 2>>]) : n \in {64, 256}}
  \cup {One(Arr(Str), [j \in 1..n |-> P(j % 5)]) : n \in {64, 256}} \cup {One(Arr(Blob(1)), [j \in 1..n |-> P(j % 5)]) : n \in {64, 256}}
  \cup {One(Arr(Fix(2)), [j \in 1..n |-> P(2)]) : n \in {64, 256}}
  \cup {One(Arr(Inner), [j \in 1..n |-> <<<<j % 256, 2>>, P(j % 3), <<<<9>>>>>>]) : n \in {64, 256}}
  \cup {One(Blob(el), Items(el, n)) : el \in {2, 4, 8, 12, 32}, n \in {255, 256, 257}}
  \cup {[m |-> "", t |-> Obj([j \in 1..n |-> Fld(<<97 + (j % 26), 97 + (j \div 26)>>, U8)]), v |-> [j \in 1..n |-> <<j>>]] : n \in {63, 64, 70}}

(* ----------------------------------------------------- the messages ----- *)
(* The payloads of the peer to peer protocol, field by field.               *)
N_network_id == <<110, 101, 116, 119, 111, 114, 107, 95, 105, 100>>
N_version == <<118, 101, 114, 115, 105, 111, 110>>
N_peer_id == <<112, 101, 101, 114, 95, 105, 100>>
N_local_time == <<108, 111, 99, 97, 108, 95, 116, 105, 109, 101>>
N_my_port == <<109, 121, 95, 112, 111, 114, 116>>
N_current_height == <<99, 117, 114, 114, 101, 110, 116, 95, 104, 101, 105, 103, 104, 116>>
N_top_id == <<116, 111, 112, 95, 105, 100>>
N_node_data == <<110, 111, 100, 101, 95, 100, 97, 116, 97>>
N_payload_data == <<112, 97, 121, 108, 111, 97, 100, 95, 100, 97, 116, 97>>
N_local_peerlist == <<108, 111, 99, 97, 108, 95, 112, 101, 101, 114, 108, 105, 115, 116>>
N_status == <<115, 116, 97, 116, 117, 115>>
N_block == <<98, 108, 111, 99, 107>>
N_txs == <<116, 120, 115>>
N_b == <<98>>
N_current_blockchain_height == <<99, 117, 114, 114, 101, 110, 116, 95, 98, 108, 111, 99, 107, 99, 104, 97, 105, 110, 95, 104, 101, 105, 103, 104, 116>>
N_hop == <<104, 111, 112>>
N_stem == <<115, 116, 101, 109>>
N_blocks == <<98, 108, 111, 99, 107, 115>>
N_start_height == <<115, 116, 97, 114, 116, 95, 104, 101, 105, 103, 104, 116>>
N_total_height == <<116, 111, 116, 97, 108, 95, 104, 101, 105, 103, 104, 116>>
N_m_block_ids == <<109, 95, 98, 108, 111, 99, 107, 95, 105, 100, 115>>
N_block_ids == <<98, 108, 111, 99, 107, 95, 105, 100, 115>>
N_missed_ids == <<109, 105, 115, 115, 101, 100, 95, 105, 100, 115>>
NodeData == Obj(<<Fld(N_network_id, Fix(16)), Fld(N_version, U8), Fld(N_peer_id, U64), Fld(N_local_time, U64), Fld(N_my_port, U32)>>)
SyncData == Obj(<<Fld(N_current_height, U32), Fld(N_top_id, Fix(32))>>)
Peers == Fld(N_local_peerlist, Blob(24))
Msg(m, t, vs) == {[m |-> m, t |-> Obj(t), v |-> v] : v \in vs}
ND(x) == <<P(16), <<x>>, P(8), F(8), [Zeros(4) EXCEPT ![2] = x]>>
SD(x) == <<<<x, 1, 0, 0>>, [P(32) EXCEPT ![32] = x]>>
RawB == Obj(<<Fld(N_block, Blob(1)), Opt(N_txs, Arr(Blob(1)))>>)
RawVals == {<<P(3), <<>>>>, <<P(70), <<P(1), P(2)>>>>}
Hashes == {<<>>, P(32), P(96)}
MsgSet ==
  Msg("HandshakeRequest", <<Fld(N_node_data, NodeData), Fld(N_payload_data, SyncData)>>, {<<ND(4), SD(9)>>, <<ND(0), SD(255)>>})
  \cup Msg("HandshakeResponse", <<Fld(N_node_data, NodeData), Fld(N_payload_data, SyncData), Peers>>, {<<ND(4), SD(9), P(24 * n)>> : n \in {0, 1, 3}})
  \cup Msg("TimedSyncRequest", <<Fld(N_payload_data, SyncData)>>, {<<SD(x)>> : x \in {0, 200}})
  \cup Msg("TimedSyncResponse", <<Fld(N_local_time, U64), Fld(N_payload_data, SyncData), Peers>>, {<<P(8), SD(7), P(24 * n)>> : n \in {0, 2}})
  \cup Msg("PingRequest", <<>>, {<<>>})
  \cup Msg("PingResponse", <<Fld(N_status, Str), Fld(N_peer_id, U64)>>, {<<<<79, 75>>, P(8)>>, <<<<>>, F(8)>>})
  \cup Msg("NotificationNewBlock", <<Fld(N_b, RawB), Fld(N_current_blockchain_height, U32), Fld(N_hop, U32)>>, {<<r, P(4), F(4)>> : r \in RawVals})
  \cup Msg("NotificationNewTransactions", <<Fld(N_stem, Bool), Fld(N_txs, Blob(32))>>, {<<<<1>>, h>> : h \in Hashes})
  \cup Msg("NotificationRequestGetObjects", <<Fld(N_txs, Blob(32)), Fld(N_blocks, Blob(32))>>, {<<h, g>> : h \in Hashes, g \in Hashes})
  \cup Msg("NotificationResponseGetObjects", <<Opt(N_txs, Arr(Str)), Fld(N_blocks, Arr(RawB)), Fld(N_current_blockchain_height, U32), Opt(N_missed_ids, Blob(32))>>,
        {<<s, r, P(4), h>> : s \in {<<>>, <<P(2), P(5)>>}, r \in {<<>>} \cup {<<x>> : x \in RawVals} \cup {<<x, y>> : x \in RawVals, y \in RawVals}, h \in {<<>>, P(64)}})
  \cup Msg("NotificationRequestChain", <<Fld(N_block_ids, Blob(32))>>, {<<h>> : h \in Hashes})
  \cup Msg("NotificationResponseChainEntry", <<Fld(N_start_height, U32), Fld(N_total_height, U32), Fld(N_m_block_ids, Blob(32))>>, {<<P(4), F(4), h>> : h \in Hashes})
  \cup Msg("NotificationNewLiteBlock", <<Fld(N_current_blockchain_height, U32), Fld(N_hop, U32), Fld(N_block, Blob(1))>>, {<<P(4), P(4), b>> : b \in {<<>>, P(65)}})
RECURSIVE Seq2(_)
Seq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seq2(S \ {x})
ShortSet == IF What = "messages" THEN MsgSet ELSE CaseSet
NShort == Cardinality(ShortSet)
Cases == Seq2(ShortSet) \o (IF Long THEN Seq2(LongSet) ELSE <<>>)
Encs == [j \in 1..Len(Cases) |-> Enc(Cases[j].t, Cases[j].v)]
Short(j) == j <= NShort

(* -------------------------------------------------------------- edits --- *)
(* [at, del, ins]: del bytes at position at are replaced by ins.            *)
E(at, del, ins) == [at |-> at, del |-> del, ins |-> ins]
Apply(b, e) == SubSeq(b, 1, e.at - 1) \o e.ins \o SubSeq(b, e.at + e.del, Len(b))
Values(x) == IF Edits = "all" THEN {(x + 1) % 256, (x + 255) % 256, (x + 128) % 256, 0, 255, 3, 254}
             ELSE {(x + 1) % 256, (x + 128) % 256, 255}
Tags == (0..16) \cup (128..144) \cup {255, 64, 76}

(* positions of the parts of an encoding: the lengths, tags and names       *)
RECURSIVE Marks(_, _, _)
Shift(S, n) == {[m EXCEPT !.at = @ + n] : m \in S}
M(what, at, len) == {[what |-> what, at |-> at, len |-> len, alt |-> {}]}
(* The format leaves open whether a sequence of fixed size items may come   *)
(* as an array instead of a blob, and the other way round.                  *)
Alt(t) == CASE t.k = "blob" -> (CASE t.el = 1 -> {136} [] t.el = 2 -> {135} [] t.el = 4 -> {134} [] t.el = 8 -> {129} [] t.el = 32 -> {138} [] OTHER -> {140})
            [] t.k = "arr" -> IF t.of.k \in {"prim", "fix"} THEN {10} ELSE {}
            [] OTHER -> {}
Sum(s) == LET RECURSIVE G(_) G(q) == IF q = <<>> THEN 0 ELSE Head(q) + G(Tail(q)) IN G(s)
Marks(t, v, at) ==
  CASE t.k = "prim" -> {}
    [] t.k \in {"str", "blob", "fix"} -> M("len", at, Len(VarInt(Len(v))))
    [] t.k = "arr" -> LET h == Len(VarInt(Len(v))) IN
         M("len", at, h) \cup UNION {Marks(t.of, v[j], at + h + Sum([q \in 1..(j-1) |-> Len(EncVal(t.of, v[q]))])) : j \in 1..Len(v)}
    [] t.k = "obj" ->
         LET p == Present(t, v) h == Len(VarInt(Len(p)))
             off(j) == at + h + Sum([q \in 1..(j-1) |-> Len(EncFld(t.f[p[q]], v[p[q]]))])
         IN M("len", at, h) \cup UNION {LET f == t.f[p[j]] IN
              M("name", off(j), 1 + Len(f.n)) \cup {[what |-> "tag", at |-> off(j) + 1 + Len(f.n), len |-> 1, alt |-> Alt(f.t)]} \cup Marks(f.t, v[p[j]], off(j) + 2 + Len(f.n))
              \cup M("field", off(j), Len(EncFld(f, v[p[j]]))) : j \in 1..Len(p)}
(* the same number with longer prefixes, and numbers that cannot be         *)
Wide(b, m) == LET n == LE(SubSeq(b, m.at, m.at + m.len - 1)) \div 4 IN
  {<<(4*n + 1) % 256, (4*n + 1) \div 256>>, <<(4*n + 2) % 256, ((4*n) \div 256) % 256, (4*n) \div 65536, 0>>,
   <<(4*n + 3) % 256, ((4*n) \div 256) % 256, (4*n) \div 65536, 0, 0, 0, 0, 0>>}
Bad == {<<2, 0, 0, 128>>, <<254, 255, 255, 255>>, <<3, 0, 0, 0, 2, 0, 0, 0>>, <<3, 0, 0, 0, 0, 0, 0, 128>>, <<255, 255, 255, 255, 255, 255, 255, 255>>,
        <<255, 255, 255, 255, 255, 255, 255, 127>>, <<253, 255>>}
EditsOf(j) ==
  LET b == Encs[j] c == Cases[j] n == Len(b)
      ms == Marks(c.t, c.v, 10)
      cuts == IF Short(j) THEN 0..(n-1) ELSE {0, 5, 9, 10, 11, 12, 13, 14, 15, 16, n \div 2, n - 2, n - 1}
  IN IF ~Short(j) THEN {E(p + 1, n - p, <<>>) : p \in cuts} \cup {E(n, 0, <<7>>), E(n + 1, 0, <<7>>)} ELSE
     {E(p + 1, n - p, <<>>) : p \in cuts}
     \cup UNION {{E(m.at, m.len, x) : x \in Bad \cup Wide(b, m)} : m \in {m \in ms : m.what = "len"}}
     \cup UNION {{E(m.at, 1, <<x>>) : x \in Tags} : m \in {m \in ms : m.what = "tag"}}
     \cup {E(m.at, m.len, <<>>) : m \in {m \in ms : m.what = "field"}}
     \cup UNION {{E(m.at, m.len, x) : x \in {<<1, 122>>, <<0>>, <<3, 99, 95, 100>>}} : m \in {m \in ms : m.what = "name"}}
     \cup {E(p, 1, <<256>>) : p \in 1..n}
     \* a whole field moved before another one
     \cup UNION {{E(m.at, m2.at + m2.len - m.at, SubSeq(b, m2.at, m2.at + m2.len - 1) \o SubSeq(b, m.at + m.len, m2.at - 1) \o SubSeq(b, m.at, m.at + m.len - 1)) :
             m2 \in {m2 \in ms : m2.what = "field" /\ m2.at >= m.at + m.len}} : m \in {m \in ms : m.what = "field"}}
     \* lengths of blobs changed together with their content
     \cup UNION {{E(p, 1, <<4 * (b[p] \div 4 + 1), 0>>) : p \in {m.at}} \cup
                 (IF b[m.at] >= 4 /\ m.at < n THEN {E(m.at, 2, <<b[m.at] - 4>>)} ELSE {})
             : m \in {m \in ms : m.what = "len" /\ m.len = 1 /\ b[m.at] < 252 /\ m.at > 10}}

(* 256 stands for each of the values tried for one byte *)
Spread(b, e) == IF e.ins = <<256>> THEN {E(e.at, 1, <<x>>) : x \in Values(b[e.at]) \ {b[e.at]}} ELSE {e}

None == E(1, 0, <<>>)
Init == i \in 1..Len(Cases) /\ edit = None /\ verdict = [v |-> "valid", val |-> <<>>]

(* A byte string is accepted with a value, refused, or free when the format *)
(* leaves the answer open: a repeated field, a missing field that is not    *)
(* optional, bytes after the end, or a boolean other than 0 and 1.          *)
RECURSIVE BoolsOk(_, _)
BoolsOk(t, v) == CASE t = Bool -> v[1] <= 1 [] t.k = "obj" -> \A j \in 1..Len(t.f) : BoolsOk(t.f[j].t, v[j])
                   [] t.k = "arr" -> \A j \in 1..Len(v) : BoolsOk(t.of, v[j]) [] OTHER -> TRUE
Decide(j, e) ==
  LET b == Apply(Encs[j], e) t == Cases[j].t d == Dec(t, b) IN
  IF e.del = 1 /\ Len(e.ins) = 1 /\ \E m \in Marks(t, Cases[j].v, 10) : m.at = e.at /\ e.ins[1] \in m.alt THEN [v |-> "free", val |-> <<>>]
  ELSE IF ~d.ok THEN [v |-> "refused", val |-> <<>>]
  ELSE IF d.p # Len(b) + 1 \/ ~BoolsOk(t, d.v) THEN [v |-> "free", val |-> <<>>]
  ELSE IF Len(Enc(t, d.v)) = Len(b) \/ e.ins \in UNION {Wide(Encs[j], m) : m \in Marks(t, Cases[j].v, 10)}
       THEN [v |-> "accepted", val |-> d.v] ELSE [v |-> "free", val |-> <<>>]

Edit == /\ edit = None /\ verdict.v = "valid"
        /\ \E e0 \in EditsOf(i) : \E e \in Spread(Encs[i], e0) :
             /\ edit' = e
             /\ verdict' = Decide(i, e)
        /\ UNCHANGED i
Next == Edit
Spec == Init /\ [][Next]_vars

(* Encoding then decoding is the identity, for every value.                 *)
RoundTrip == verdict.v = "valid" => Dec(Cases[i].t, Encs[i]) = Yes(Cases[i].v, Len(Encs[i]) + 1)
(* No strict prefix of an encoding is accepted.                             *)
PrefixFree == (verdict.v # "valid" /\ edit.ins = <<>> /\ edit.at + edit.del - 1 = Len(Encs[i])) => verdict.v = "refused"
(* What is accepted is the encoding of something, except for wide lengths.  *)
EmitInit == verdict.v = "valid" => PrintT(ToJson([i |-> i, m |-> Cases[i].m, t |-> Cases[i].t, val |-> Cases[i].v, b |-> Encs[i]]))
Emit == PrintT(ToJson([i |-> i, e |-> edit', d |-> verdict']))
=============================================================================
