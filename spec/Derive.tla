------------------------------- MODULE Derive -------------------------------
(* One-time keys and key images: what sender and receiver compute, as terms. *)
EXTENDS Terms, Json
CONSTANTS Senders, Wallets, Indexes
VARIABLES phase, out, got
vars == <<phase, out, got>>

(* An output: the transaction's secret, the low order part somebody added to *)
(* the public key that is sent, the receiver and the position.               *)
TxKey(o) == PAdd(PMul(Atom(o.r), G), Low(o.t))
View(w) == Atom("v" \o w)
Spend(w) == Atom("s" \o w)
SendD(o) == Mul8(PMul(Atom(o.r), PMul(View(o.w), G)))
RecvD(o) == Mul8(PMul(View(o.w), TxKey(o)))
Hs(D, i) == HashAtom(<<D, i>>)
OneTime(D, i, S) == PAdd(S, PMul(Hs(D, i), G))
Secret(D, i, s) == Add(s, Hs(D, i))
Undo(D, i, P) == PAdd(P, PNeg(PMul(Hs(D, i), G)))
Image(x) == PMul(x, Hp(PMul(x, G)))
(* The group order times a point leaves its low order part, times 5.        *)
OrderTimes(P) == [lin |-> {}, tor |-> {<<x[1], (5 * x[2]) % 8>> : x \in P.tor}]

Outs == [r : Senders, t : 0..7, w : Wallets, i : Indexes]
Keys(o) == LET D == SendD(o) P == OneTime(D, o.i, PMul(Spend(o.w), G)) x == Secret(D, o.i, Spend(o.w)) IN
           [d |-> D, d2 |-> RecvD(o), p |-> P, x |-> x, xg |-> PMul(x, G), s |-> Undo(D, o.i, P), im |-> Image(x)]
None == [d |-> O, d2 |-> O, p |-> O, x |-> Zero, xg |-> O, s |-> O, im |-> O]
Init == phase = "tx" /\ out \in Outs /\ got = None
Derive == phase = "tx" /\ phase' = "derived" /\ got' = Keys(out) /\ UNCHANGED out
Next == Derive
Spec == Init /\ [][Next]_vars

Agree == phase = "derived" => got.d = got.d2 /\ got.xg = got.p /\ got.s = PMul(Spend(out.w), G)
(* Another transaction, receiver or position gives another key and image.   *)
AllKeys == [o \in {x \in Outs : x.t = 0} |-> Keys(o)]
Distinct == phase = "derived" => \A o \in DOMAIN AllKeys : <<o.r, o.w, o.i>> # <<out.r, out.w, out.i>> =>
              AllKeys[o].p # got.p /\ AllKeys[o].x # got.x /\ AllKeys[o].im # got.im
(* Images have no low part, and any low part shows.                         *)
Whole == phase = "derived" => /\ OrderTimes(got.im) = O
                              /\ \A t \in 1..7 : OrderTimes(PAdd(got.im, Low(t))) # O
Emit == phase' = "derived" =>
   PrintT(ToJson([o |-> out, h |-> ToString(Hs(got'.d, out.i)), d |-> got'.d.lin, p |-> got'.p.lin, x |-> got'.x, s |-> got'.s.lin, im |-> got'.im.lin,
                  term |-> [d |-> ToString(got'.d), p |-> ToString(got'.p), x |-> ToString(got'.x), im |-> ToString(got'.im)],
                  low |-> [t \in 1..7 |-> OrderTimes(PAdd(got'.im, Low(t))).tor]]))
=============================================================================
