-------------------------------- MODULE Sign --------------------------------
(* Signatures of one key: making one and checking it, and everything that   *)
(* can be exchanged between the two.                                        *)
EXTENDS Terms, Json
VARIABLES phase, sig, sc, verdict
vars == <<phase, sig, sc, verdict>>

Key(a) == PMul(Atom(a), G)
Hs(m, P, comm) == HashAtom(<<m, P, comm>>)
(* a scalar as it is sent: its value and whether it is reduced *)
Sc(p, red) == [p |-> p, red |-> red]
Make(m, a, k) == LET c == Hs(m, Key(a), PMul(k, G)) IN [c |-> Sc(c, TRUE), r |-> Sc(Sub(k, Mul(c, Atom(a))), TRUE)]
Nonce == [some |-> Atom("k"), other |-> Atom("k2"), zero |-> Zero]
SecretKinds == {"reduced", "one", "last", "order", "plus", "max"}
Signs(kind) == kind \in {"reduced", "one", "last"}

PubKinds == {"own", "other", "negated", "identity", "off", "low1", "low2", "low3", "low4", "low5", "low6", "low7"}
Pub(kind) == CASE kind = "own" -> Key("a") [] kind = "other" -> Key("b") [] kind = "negated" -> PNeg(Key("a")) [] kind = "identity" -> O
               [] kind = "low1" -> PAdd(Key("a"), Low(1)) [] kind = "low2" -> PAdd(Key("a"), Low(2)) [] kind = "low3" -> PAdd(Key("a"), Low(3))
               [] kind = "low4" -> PAdd(Key("a"), Low(4)) [] kind = "low5" -> PAdd(Key("a"), Low(5)) [] kind = "low6" -> PAdd(Key("a"), Low(6))
               [] kind = "low7" -> PAdd(Key("a"), Low(7)) [] OTHER -> O
PartKinds == {"own", "plus1", "minus1", "negated", "unreduced", "zero", "order", "swapped", "again", "foreign", "max"}
(* "again" comes from a second signature by the key, "foreign" from one by another key *)
Part(kind, own, swapped, again, foreign) ==
  CASE kind = "own" -> own [] kind = "plus1" -> Sc(Add(own.p, Const(1)), TRUE) [] kind = "minus1" -> Sc(Sub(own.p, Const(1)), TRUE)
    [] kind = "negated" -> Sc(Neg(own.p), TRUE) [] kind = "unreduced" -> Sc(own.p, FALSE) [] kind = "zero" -> Sc(Zero, TRUE)
    [] kind = "order" -> Sc(Zero, FALSE) [] kind = "swapped" -> swapped [] kind = "again" -> again [] kind = "foreign" -> foreign
    [] kind = "max" -> Sc(Atom("max"), FALSE)
Check(m, kind, c, r) ==
  LET P == Pub(kind) comm == PAdd(PMul(c.p, P), PMul(r.p, G)) IN
  /\ kind # "off" /\ c.red /\ r.red /\ c.p # Zero
  /\ comm # O
  /\ c.p = Hs(m, P, comm)

Init == phase = "sign" /\ sig = [k |-> "none", sk |-> "none"] /\ sc = [m |-> "none", pub |-> "none", c |-> "none", r |-> "none"] /\ verdict = "none"
SignIt == /\ phase = "sign"
          /\ \E k \in {"some", "zero"}, sk \in SecretKinds :
               /\ k = "zero" => sk = "reduced"
               /\ sig' = [k |-> k, sk |-> sk] /\ verdict' = IF Signs(sk) THEN "signed" ELSE "refused"
               /\ phase' = IF Signs(sk) THEN "check" ELSE "done"
          /\ UNCHANGED sc
CheckIt == /\ phase = "check"
           /\ \E m \in {"own", "other"}, pub \in PubKinds, ck \in PartKinds, rk \in PartKinds :
                LET s == Make("own", "a", Nonce[sig.k]) t == Make("own", "a", Nonce["other"]) u == Make("own", "b", Nonce["other"]) IN
                /\ sc' = [m |-> m, pub |-> pub, c |-> ck, r |-> rk]
                /\ verdict' = IF Check(m, pub, Part(ck, s.c, s.r, t.c, u.c), Part(rk, s.r, s.c, t.r, u.r)) THEN "valid" ELSE "invalid"
           /\ phase' = "done" /\ UNCHANGED sig
Next == SignIt \/ CheckIt
Spec == Init /\ [][Next]_vars

(* Exactly what was signed is valid, another signature of the same message  *)
(* by the same key, and that of another key for this key.                   *)
Exact == (phase = "done" /\ verdict = "valid") =>
           /\ sc.m = "own" /\ sc.c = sc.r
           /\ (sc.pub = "own" /\ sc.c \in {"own", "again"}) \/ (sc.pub = "other" /\ sc.c = "foreign")
Honest == (phase = "done" /\ sc.m = "own" /\ sc.pub = "own" /\ sc.c = "own" /\ sc.r = "own") => (verdict = "valid") = (sig.k # "zero")
Emit == phase' = "done" => PrintT(ToJson([sig |-> sig', sc |-> sc', v |-> verdict']))
=============================================================================
