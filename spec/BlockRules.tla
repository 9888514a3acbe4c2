----------------------------- MODULE BlockRules -----------------------------
(* The header and coinbase rules of one block at one height, without        *)
(* transactions, on top of a chain that ends one below.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Heights,   \* heights of the block
          Pairs      \* TRUE: two fields may differ from the plain block at once

VARIABLES case, verdict
vars == <<case, verdict>>

Schedule(h) == IF h > 700000 THEN 5 ELSE IF h > 266000 THEN 4 ELSE IF h > 216000 THEN 3 ELSE IF h > 60000 THEN 2 ELSE 1

(* What a field of the block may be; the first value is the plain one.      *)
Domain(f, h) ==
  CASE f = "major"  -> {0, 1, 2, 3, 4, 5, 6, 7}
    [] f = "inputs" -> {"one", "none", "two", "key", "twokey"}
    [] f = "unlock" -> {"ten", "nine", "eleven", "zero", "wrap", "height"}
    [] f = "sigs"   -> {"absent", "empty", "one"}
    [] f = "outs"   -> {"one", "three", "zero", "zerolast", "badkey", "badlast", "overflow", "overflow3", "none"}
    [] f = "pver"   -> {0, 1, 2, 3}
    [] f = "psize"  -> {"small", "2047", "2048", "2049"}
    [] f = "extra"  -> {"pub", "empty", "mm", "pubmm", "bad", "truncated", "nonce", "1023", "1024", "1025"}
    [] f = "sig"    -> {"ok", "otherkey", "otherblock", "zero", "swapped", "notreduced"}

Fields == {"major", "inputs", "unlock", "sigs", "outs", "pver", "psize", "extra", "sig"}

Plain(h) == [h |-> h, major |-> Schedule(h), inputs |-> "one", unlock |-> "ten", sigs |-> "absent", outs |-> "one",
             pver |-> 1, psize |-> "small", extra |-> "pub", sig |-> "ok"]

HasParent(c) == c.major \in {2, 3}
HasSig(c) == c.major >= 5
(* Fields a block does not have cannot be varied. *)
Meaningful(c) == /\ (c.pver # 1 \/ c.psize # "small") => HasParent(c)
                 /\ c.sig # "ok" => HasSig(c)
                 /\ c.inputs \in {"none", "two", "twokey", "key"} => c.unlock = "ten"
                 /\ c.inputs \in {"key", "twokey"} => c.sigs = "absent"  \* they come with signatures of their own

Singles(h) == {Plain(h)} \cup UNION {{[Plain(h) EXCEPT ![f] = v] : v \in Domain(f, h)} : f \in Fields}
Doubles(h) == UNION {UNION {{[Plain(h) EXCEPT ![p[1]] = v, ![p[2]] = w] : v \in Domain(p[1], h), w \in Domain(p[2], h)}
                     : p \in {q \in Fields \X Fields : q[1] # q[2]}} : x \in {1}}
Cases == UNION {{c \in (IF Pairs THEN Doubles(h) ELSE Singles(h)) : Meaningful(c)} : h \in Heights}

----------------------------------------------------------------------------
CoinbaseOk(c) == /\ c.inputs = "one" /\ c.unlock = "ten" /\ c.sigs = "absent"
                 /\ c.outs \in {"one", "three"}
ParentOk(c) == /\ c.major = 2 => c.pver <= 1
               /\ c.major \in {2, 3} => c.psize # "2049"
ExtraOk(c) == c.h >= 500000 => c.extra # "1025"
V5Ok(c) == c.major = 5 =>
             /\ c.extra \notin {"mm", "pubmm", "bad", "truncated"}
             /\ c.outs # "three"
             /\ c.sig = "ok"
Valid(c) == c.major = Schedule(c.h) /\ CoinbaseOk(c) /\ ParentOk(c) /\ ExtraOk(c) /\ V5Ok(c)

Init == case \in Cases /\ verdict = "open"
Judge == /\ verdict = "open"
         /\ verdict' = IF Valid(case) THEN "accepted" ELSE "refused"
         /\ UNCHANGED case
Next == Judge
Spec == Init /\ [][Next]_vars

(* The plain block of every height is fine, and only the scheduled version. *)
PlainAccepted == (verdict # "open" /\ case = Plain(case.h)) => verdict = "accepted"
OnlyScheduled == verdict = "accepted" => case.major = Schedule(case.h)
Emit == PrintT(ToJson([c |-> case, v |-> verdict']))
=============================================================================
