------------------------------- MODULE Base58 -------------------------------
(* CryptoNote's base 58: bytes are cut into blocks of eight, each written   *)
(* with just enough digits; and addresses made of a tag, keys and checksum. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS What,      \* "text" or "address"
          Rich
VARIABLES item, verdict
vars == <<item, verdict>>

Digits == <<2, 3, 5, 6, 7, 9, 10, 11>>       \* digits for n bytes
BytesFor(d) == IF \E n \in 1..8 : Digits[n] = d THEN CHOOSE n \in 1..8 : Digits[n] = d ELSE 0

(* Numbers are byte strings, most significant byte first.                   *)
RECURSIVE DivMod(_, _, _, _)
DivMod(b, m, r, acc) ==   \* quotient and remainder of b by m
  IF b = <<>> THEN [q |-> acc, r |-> r]
  ELSE LET x == r * 256 + Head(b) IN DivMod(Tail(b), m, x % m, Append(acc, x \div m))
RECURSIVE ToDigits(_, _)
ToDigits(b, n) == IF n = 0 THEN <<>> ELSE LET d == DivMod(b, 58, 0, <<>>) IN Append(ToDigits(d.q, n - 1), d.r)
RECURSIVE MulAdd(_, _, _)
MulAdd(b, m, c) ==        \* b * m + c with a leading carry
  IF b = <<>> THEN [c |-> c, b |-> <<>>]
  ELSE LET x == b[Len(b)] * m + c  r == MulAdd(SubSeq(b, 1, Len(b) - 1), m, x \div 256)
       IN [c |-> r.c, b |-> Append(r.b, x % 256)]
Bad == [ok |-> FALSE, v |-> <<>>]
RECURSIVE FromDigits(_, _)
FromDigits(t, acc) ==
  IF t = <<>> THEN [ok |-> TRUE, v |-> acc]
  ELSE IF Head(t) > 57 THEN Bad
  ELSE LET r == MulAdd(acc, 58, Head(t)) IN IF r.c # 0 THEN Bad ELSE FromDigits(Tail(t), r.b)
Zeros(n) == [j \in 1..n |-> 0]
RECURSIVE Enc(_), Dec(_)
Enc(b) == IF b = <<>> THEN <<>>
          ELSE IF Len(b) >= 8 THEN ToDigits(SubSeq(b, 1, 8), 11) \o Enc(SubSeq(b, 9, Len(b)))
          ELSE ToDigits(b, Digits[Len(b)])
Dec(t) == IF t = <<>> THEN [ok |-> TRUE, v |-> <<>>]
          ELSE LET n == IF Len(t) >= 11 THEN 11 ELSE Len(t)
                   w == BytesFor(n)
                   x == IF w = 0 THEN Bad ELSE FromDigits(SubSeq(t, 1, n), Zeros(w))
                   y == IF x.ok THEN Dec(SubSeq(t, n + 1, Len(t))) ELSE Bad
               IN IF y.ok THEN [ok |-> TRUE, v |-> x.v \o y.v] ELSE Bad

(* --------------------------------------------------------------- text --- *)
P(n, k) == [j \in 1..n |-> (k * j * j + 11 * j) % 256]
F(n) == [j \in 1..n |-> 255]
Blocks == UNION {{Zeros(n), F(n), [Zeros(n) EXCEPT ![n] = 1], [Zeros(n) EXCEPT ![1] = 1], [F(n) EXCEPT ![n] = 254], [F(n) EXCEPT ![1] = 127],
                  [Zeros(n) EXCEPT ![n] = 57], [Zeros(n) EXCEPT ![n] = 58], P(n, 3), P(n, 17)} : n \in 1..8}
Strings == Blocks \cup {<<>>} \cup {P(n, k) : n \in 9..(IF Rich THEN 40 ELSE 25), k \in 1..(IF Rich THEN 6 ELSE 2)} \cup {Zeros(n) : n \in {9, 16, 24, 64}} \cup {F(n) : n \in {9, 15, 16, 17, 64}}
           \cup {b \o c : b \in {F(8), Zeros(8)}, c \in Blocks}
(* 58 and above stand for characters outside the alphabet                   *)
Texts == {Enc(b) : b \in Strings}
Edited(t) == {t}
  \cup {[t EXCEPT ![p] = x] : p \in DOMAIN t, x \in IF Rich THEN 0..68 ELSE {0, 1, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68}}
  \cup {[t EXCEPT ![p] = @ + 1] : p \in DOMAIN t} \cup {[t EXCEPT ![p] = IF @ > 0 THEN @ - 1 ELSE 57] : p \in DOMAIN t}
  \cup {SubSeq(t, 1, p) : p \in 0..Len(t)} \cup {SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t)) : p \in DOMAIN t}
  \cup {SubSeq(t, 1, p) \o <<x>> \o SubSeq(t, p + 1, Len(t)) : p \in 0..Len(t), x \in {0, 57}}
(* one more than the greatest number of a block, and the greatest text      *)
Over == {Zeros(d) : d \in 0..34} \cup {[j \in 1..d |-> 57] : d \in 0..34} \cup {[Zeros(d) EXCEPT ![1] = 1] : d \in 1..22}

(* ------------------------------------------------------------- address -- *)
RECURSIVE VarInt(_)
VarInt(b) ==  \* b most significant byte first; seven bits at a time
  LET d == DivMod(b, 128, 0, <<>>) IN IF d.q = Zeros(Len(b)) THEN <<d.r>> ELSE <<d.r + 128>> \o VarInt(d.q)
Tags == {Zeros(8), <<0,0,0,0,0,0,0,1>>, <<0,0,0,0,0,0,0,111>>, <<0,0,0,0,0,0,0,127>>, <<0,0,0,0,0,0,0,128>>, <<0,0,0,0,0,0,63,255>>, <<0,0,0,0,0,0,64,0>>,
         <<0,0,0,1,0,0,0,0>>, <<17,34,51,68,85,102,119,136>>, <<128,0,0,0,0,0,0,0>>, F(8)}
Keys == {P(64, 3), Zeros(64), F(64), [Zeros(64) EXCEPT ![1] = 1], [Zeros(64) EXCEPT ![64] = 1], [P(64, 5) EXCEPT ![33] = 0]}
Wrong == {<<128>>, <<255, 255>>, [j \in 1..9 |-> 128], <<128,128,128,128,128,128,128,128,128,2>>, [j \in 1..11 |-> 255], [j \in 1..10 |-> 255], <<>>}
Addr(h, tag, tb, ks) == [how |-> h, tag |-> tag, body |-> tb \o ks, keys |-> ks, sum |-> TRUE]
Addresses ==
  {Addr("right", t, VarInt(t), k) : t \in Tags, k \in Keys}
  \cup {Addr("length", t, VarInt(t), P(n, 3)) : t \in {Zeros(8), <<0,0,0,0,0,0,0,111>>, F(8)}, n \in {0, 1, 31, 32, 33, 60, 62, 63, 65, 66, 68, 72, 96, 128}}
  \cup {Addr("tag", Zeros(8), w, <<>>) : w \in Wrong \ {<<>>}}
  \cup {Addr("tag", Zeros(8), w, [j \in 1..k |-> 200]) : w \in Wrong, k \in {1, 63, 64}}
  \cup {[Addr("sum", t, VarInt(t), k) EXCEPT !.sum = FALSE] : t \in Tags, k \in {P(64, 3)}}

Init == verdict = "open" /\ \/ What = "text" /\ item \in Texts \cup Over
                            \/ What = "address" /\ item \in Addresses
AddrOk(a) == a.how = "right" /\ a.sum
Next == /\ verdict = "open"
        /\ \/ What = "text" /\ \E e \in (IF Rich \/ Len(item) <= 22 THEN Edited(item) ELSE {item}) : item' = e
           \/ What = "address" /\ item' = item
        /\ verdict' = IF What = "text" THEN (IF Dec(item').ok THEN "accepted" ELSE "refused")
                      ELSE IF AddrOk(item') THEN "accepted" ELSE "refused"
Spec == Init /\ [][Next]_vars

(* decoding inverts encoding, and accepts nothing else                      *)
Exact == What = "text" => LET d == Dec(item) IN d.ok => Enc(d.v) = item
Inverse == (What = "text" /\ verdict = "open") => \A b \in {item} : (\A j \in DOMAIN b : b[j] < 256) => Dec(Enc(b)) = [ok |-> TRUE, v |-> b]
Emit == PrintT(ToJson([what |-> What, t |-> IF What = "text" THEN item' ELSE <<>>, bytes |-> IF What = "text" THEN Dec(item').v ELSE <<>>,
                       a |-> IF What = "address" THEN item' ELSE Addr("", <<>>, <<>>, <<>>), v |-> verdict']))
=============================================================================
