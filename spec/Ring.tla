-------------------------------- MODULE Ring --------------------------------
(* Ring signatures: making one for a ring, checking it, and everything that *)
(* can be exchanged between the two.                                        *)
EXTENDS Terms, Json
CONSTANT N          \* the largest ring
VARIABLES phase, ring, sc, verdict
vars == <<phase, ring, sc, verdict>>

Key(a) == PMul(Atom(a), G)
Image(a) == PMul(Atom(a), Hp(Key(a)))
Sc(p, red) == [p |-> p, red |-> red]
Member(j) == CASE j = 1 -> "a1" [] j = 2 -> "a2" [] j = 3 -> "a3" [] j = 4 -> "a4" [] OTHER -> "f"
RingOf(r) == [j \in 1..r.n |-> IF r.dup /\ j = r.n THEN Member(1) ELSE Member(j)]
Challenge(m, Ls, Rs) == HashAtom(<<m, Ls, Rs>>)

(* A signature: the other members' parts are drawn, the signer closes it.   *)
(* n names the draw: two signatures of the same thing draw differently.     *)
Sign(m, keys, s, d) ==
  LET n == Len(keys) a == keys[s] k == Atom("k" \o d)
      c(j) == Atom("c" \o d \o ToString(j)) r(j) == Atom("r" \o d \o ToString(j))
      Lp(j) == IF j = s THEN PMul(k, G) ELSE PAdd(PMul(c(j), Key(keys[j])), PMul(r(j), G))
      Rp(j) == IF j = s THEN PMul(k, Hp(Key(a))) ELSE PAdd(PMul(r(j), Hp(Key(keys[j]))), PMul(c(j), Image(a)))
      h == Challenge(m, [j \in 1..n |-> Lp(j)], [j \in 1..n |-> Rp(j)])
      cs == Sub(h, SumP([j \in 1..n |-> IF j = s THEN Zero ELSE c(j)]))
  IN [j \in 1..n |-> IF j = s THEN [c |-> Sc(cs, TRUE), r |-> Sc(Sub(k, Mul(Atom(a), cs)), TRUE)] ELSE [c |-> Sc(c(j), TRUE), r |-> Sc(r(j), TRUE)]]
(* all challenges are multiples of 8 when the signer repeats until they are *)
Times(p, P, low) == IF low THEN [PMul(p, P) EXCEPT !.tor = {}] ELSE PMul(p, P)
Check(m, I, keys, sigs, low) ==
  LET n == Len(keys)
      Lp == [j \in 1..n |-> PAdd(Times(sigs[j].c.p, keys[j].P, low), PMul(sigs[j].r.p, G))]
      Rp == [j \in 1..n |-> PAdd(PMul(sigs[j].r.p, Hp(keys[j].P)), Times(sigs[j].c.p, I.P, low))]
  IN /\ \A j \in 1..n : keys[j].on
     /\ I.on
     /\ Len(sigs) = n
     /\ \A j \in 1..n : sigs[j].c.red /\ sigs[j].r.red
     /\ Challenge(m, Lp, Rp) = SumP([j \in 1..n |-> sigs[j].c.p])

Pt(P, on) == [P |-> P, on |-> on]
On(P) == Pt(P, TRUE)
Off == Pt(O, FALSE)
Rings == {r \in [n : 1..N, s : 1..N, dup : BOOLEAN, low : BOOLEAN] : r.s <= r.n /\ (r.dup => r.n > 1 /\ r.s = 1) /\ (r.low => r.n <= 2 /\ ~r.dup)}

(* What the signer may get wrong.                                           *)
SignKinds == {"own", "foreign secret", "unreduced secret", "other image", "foreign image", "image plus low", "off image", "index", "off member", "other secret", "identity image"}
SignOk(k) == k = "own"

ImageKinds == {"own", "foreign", "other", "identity", "off", "negated"} \cup {"low1", "low2", "low3", "low4", "low5", "low6", "low7"}
ImageOf(kind, a, b) ==
  CASE kind = "own" -> On(Image(a)) [] kind = "foreign" -> On(Image("f")) [] kind = "other" -> On(Image(b)) [] kind = "identity" -> On(O)
    [] kind = "off" -> Off [] kind = "negated" -> On(PNeg(Image(a)))
    [] kind = "low1" -> On(PAdd(Image(a), Low(1))) [] kind = "low2" -> On(PAdd(Image(a), Low(2))) [] kind = "low3" -> On(PAdd(Image(a), Low(3)))
    [] kind = "low4" -> On(PAdd(Image(a), Low(4))) [] kind = "low5" -> On(PAdd(Image(a), Low(5))) [] kind = "low6" -> On(PAdd(Image(a), Low(6)))
    [] OTHER -> On(PAdd(Image(a), Low(7)))
Pos(n) == 1..n
RingEdits(n) == {[k |-> "own", j |-> 0]} \cup {[k |-> k, j |-> j] : k \in {"foreign", "off", "low", "identity", "remove", "insert", "twice", "negated"}, j \in Pos(n)} \cup {[k |-> "append", j |-> 0]}
                \cup {[k |-> "swap", j |-> j] : j \in 1..(n - 1)}
Swap(s, j) == [q \in 1..Len(s) |-> IF q = j THEN s[j + 1] ELSE IF q = j + 1 THEN s[j] ELSE s[q]]
Del(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Ins(s, j, x) == SubSeq(s, 1, j - 1) \o <<x>> \o SubSeq(s, j, Len(s))
EditRing(keys, e) ==
  CASE e.k = "own" -> keys [] e.k = "foreign" -> [keys EXCEPT ![e.j] = On(Key("f"))] [] e.k = "off" -> [keys EXCEPT ![e.j] = Off]
    [] e.k = "low" -> [keys EXCEPT ![e.j] = On(PAdd(@.P, Low(1)))] [] e.k = "identity" -> [keys EXCEPT ![e.j] = On(O)]
    [] e.k = "remove" -> Del(keys, e.j) [] e.k = "insert" -> Ins(keys, e.j, On(Key("f"))) [] e.k = "twice" -> Ins(keys, e.j, keys[e.j])
    [] e.k = "negated" -> [keys EXCEPT ![e.j] = On(PNeg(@.P))]
    [] e.k = "append" -> Append(keys, On(Key("f"))) [] e.k = "swap" -> Swap(keys, e.j)
SigEdits(n) == {[k |-> "own", j |-> 0], [k |-> "again", j |-> 0], [k |-> "message", j |-> 0]}
               \cup {[k |-> k, j |-> j] : k \in {"c+1", "r+1", "c+L", "r+L", "c=0", "r=0", "c=max", "cr", "remove", "twice", "again"}, j \in Pos(n)}
               \cup {[k |-> k, j |-> j] : k \in {"swap", "swap c", "shift"}, j \in 1..(n - 1)}
One == Const(1)
EditSigs(s, again, message, e) ==
  CASE e.k = "own" -> s [] e.k = "again" /\ e.j = 0 -> again [] e.k = "message" -> message
    [] e.k = "c+1" -> [s EXCEPT ![e.j].c.p = Add(@, One)] [] e.k = "r+1" -> [s EXCEPT ![e.j].r.p = Add(@, One)]
    [] e.k = "c+L" -> [s EXCEPT ![e.j].c.red = FALSE] [] e.k = "r+L" -> [s EXCEPT ![e.j].r.red = FALSE]
    [] e.k = "c=0" -> [s EXCEPT ![e.j].c.p = Zero] [] e.k = "r=0" -> [s EXCEPT ![e.j].r.p = Zero]
    [] e.k = "c=max" -> [s EXCEPT ![e.j].c = Sc(Atom("max"), FALSE)]
    [] e.k = "cr" -> [s EXCEPT ![e.j] = [c |-> @.r, r |-> @.c]]
    [] e.k = "remove" -> Del(s, e.j) [] e.k = "twice" -> Ins(s, e.j, s[e.j]) [] e.k = "again" -> [s EXCEPT ![e.j] = again[e.j]]
    [] e.k = "swap" -> Swap(s, e.j) [] e.k = "swap c" -> [s EXCEPT ![e.j].c = s[e.j + 1].c, ![e.j + 1].c = s[e.j].c]
    [] e.k = "shift" -> [s EXCEPT ![e.j].c.p = Add(@, One), ![e.j + 1].c.p = Sub(@, One)]

NoSc == [m |-> "own", image |-> "own", ring |-> [k |-> "own", j |-> 0], sigs |-> [k |-> "own", j |-> 0], sub |-> TRUE]
Init == phase = "sign" /\ ring \in {[r |-> r, how |-> "own"] : r \in Rings} /\ sc = NoSc /\ verdict = "none"
Own(r) == RingOf(r)[r.s]
Other(r) == IF r.n > 1 /\ ~r.dup THEN RingOf(r)[(r.s % r.n) + 1] ELSE "f"
SignIt == /\ phase = "sign"
          /\ \E how \in (IF ring.r.low THEN {"own"} ELSE SignKinds) :
               /\ how = "other secret" => ring.r.n > 1 /\ ~ring.r.dup
               /\ ring' = [ring EXCEPT !.how = how]
               /\ verdict' = (IF SignOk(how) THEN "signed" ELSE "refused")
               /\ phase' = IF SignOk(how) THEN "check" ELSE "done"
          /\ UNCHANGED sc
(* one or two of the five things are exchanged                              *)
Changes(s) == (IF s.m # "own" THEN 1 ELSE 0) + (IF s.image # "own" THEN 1 ELSE 0) + (IF s.ring.k # "own" THEN 1 ELSE 0) + (IF s.sigs.k # "own" THEN 1 ELSE 0)
Decide(r, s) ==
  LET keys == RingOf(r)
      own == Sign("own", keys, r.s, "x") again == Sign("own", keys, r.s, "y") message == Sign("other", keys, r.s, "z")
      eq(low) == Check(s.m, ImageOf(s.image, Own(r), Other(r)), EditRing([j \in 1..r.n |-> On(Key(keys[j]))], s.ring), EditSigs(own, again, message, s.sigs), low)
      whole == ImageOf(s.image, Own(r), Other(r)).P.tor = {}
  IN IF whole THEN IF eq(r.low) THEN "valid" ELSE "invalid" ELSE IF s.sub \/ ~eq(TRUE) THEN "invalid" ELSE "free"
(* Without the group test the equations hold for an image with a low part    *)
(* whenever it vanishes, which challenges may do to it by chance: only        *)
(* callers who test the image elsewhere may leave the group test out.        *)
CheckIt == /\ phase = "check"
           /\ \E m \in {"own", "other"}, image \in ImageKinds, re \in RingEdits(ring.r.n), se \in SigEdits(ring.r.n), sub \in BOOLEAN :
                LET s == [m |-> m, image |-> image, ring |-> re, sigs |-> se, sub |-> sub] IN
                Changes(s) <= 2 /\ sc' = s /\ verdict' = Decide(ring.r, s)
           /\ phase' = "done" /\ UNCHANGED ring
Next == SignIt \/ CheckIt
Spec == Init /\ [][Next]_vars

(* What is valid was signed over this message, this ring and this image.    *)
SameRing(r, e) == e.k = "own" \/ (e.k = "swap" /\ RingOf(r)[e.j] = RingOf(r)[e.j + 1])
Exact == (phase = "done" /\ verdict = "valid") =>
           /\ sc.image = "own" \/ (sc.image = "foreign" /\ Own(ring.r) = "f")
           /\ SameRing(ring.r, sc.ring)
           /\ sc.sigs.k \in {"own", "again", "message"} /\ (sc.sigs.k = "again" /\ sc.sigs.j > 0 => ring.r.n = 1)
           /\ (sc.m = "other") = (sc.sigs.k = "message")
Honest == (phase = "done" /\ ring.how = "own" /\ sc.m = "own" /\ sc.image = "own" /\ sc.ring.k = "own" /\ sc.sigs.k = "own") => verdict = "valid"
Emit == phase' = "done" => PrintT(ToJson([ring |-> ring', sc |-> sc', v |-> verdict']))
=============================================================================
