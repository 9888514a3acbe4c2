------------------------------ MODULE Framing ------------------------------
(* A byte stream and the packets a reader gets from it.  A packet is a      *)
(* header of 33 bytes and a body; the stream arrives in fragments that have *)
(* nothing to do with the packets.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Lens,     \* body lengths
          Count,    \* number of packets at most
          Every     \* look at every byte, not only at the interesting ones

Header == 33
Faults == {"none", "signature", "oversize"}

VARIABLES pk,       \* lengths of the packets of the stream
          fault,    \* what is wrong with the header of the last one
          at,       \* bytes that have arrived
          got,      \* packets delivered
          st        \* "open", "error"
vars == <<pk, fault, at, got, st>>

RECURSIVE End(_, _)
End(p, i) == IF i = 0 THEN 0 ELSE End(p, i - 1) + Header + p[i]
Total == End(pk, Len(pk))
Start(i) == End(pk, i - 1)

Interesting ==
  IF Every THEN 0..Total
  ELSE UNION {{x \in {Start(i), Start(i) + 1, Start(i) + 7, Start(i) + 8, Start(i) + 9, Start(i) + 16, Start(i) + 17, Start(i) + 21, Start(i) + 25,
                      Start(i) + 29, Start(i) + 32, Start(i) + 33, Start(i) + 34, End(pk, i) - 1, End(pk, i)} : x <= Total} : i \in 1..Len(pk)}

Seqs == UNION {[1..n -> Lens] : n \in 1..Count}
Init == /\ pk \in Seqs /\ fault \in Faults
        /\ at = 0 /\ got = 0 /\ st = "open"

\* what a reader that has n bytes of the stream has delivered
Whole(n) == LET good == IF fault = "none" THEN Len(pk) ELSE Len(pk) - 1
                done == {i \in 1..good : End(pk, i) <= n}
            IN Cardinality(done)
Broken(n) == fault # "none" /\ n >= Start(Len(pk)) + Header

Arrive == /\ st = "open" /\ at < Total
          /\ at' \in {x \in Interesting : x > at}
          /\ got' = Whole(at')
          /\ st' = IF Broken(at') THEN "error" ELSE "open"
          /\ UNCHANGED <<pk, fault>>
\* the stream ends: nothing more is delivered, and reading fails
Ends == /\ st = "open"
        /\ st' = "error" /\ UNCHANGED <<pk, fault, at, got>>
Next == Arrive \/ Ends
Spec == Init /\ [][Next]_vars

Prompt == got = Whole(at)
NothingFromBroken == fault # "none" => got < Len(pk)
OnlyWhole == got > 0 => End(pk, got) <= at
NeverTakenBack == [][got' >= got]_vars
ErrorIsFinal == [][st = "open"]_vars

K(a, s) == [pk |-> pk, fault |-> fault, at |-> a, st |-> s]
Emit == PrintT(ToJson([s |-> K(at, st), t |-> K(at', st'), got |-> got']))
EmitInit == (at = 0 /\ st = "open") => PrintT(ToJson([init |-> K(at, st)]))
=============================================================================
