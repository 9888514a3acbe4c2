----------------------------- MODULE Timestamps -----------------------------
(* The timestamp rules of one block: not too far ahead of the clock, not    *)
(* below the median of the window of its version.  Time passes with Tick.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Seed,     \* varies the pseudo random patterns
          Heights, Shapes, Rich

VARIABLES ctx,      \* height and ancestor timestamps
          now,      \* local clock
          offers,   \* offers so far: timestamp and verdict
          done
vars == <<ctx, now, offers, done>>

Start == 946684800  \* the clock of the simulation starts at 2000-01-01
Old == 900000000    \* ancestors are around this time

Version(h) == IF h > 700000 THEN 5 ELSE IF h > 266000 THEN 4 ELSE IF h > 216000 THEN 3 ELSE IF h > 60000 THEN 2 ELSE 1
Window(h) == IF Version(h) >= 4 THEN 11 ELSE 60
Future(h) == IF Version(h) >= 4 THEN 720 ELSE 1680

(* The timestamps of the ancestors at depth 1 (predecessor), 2, ...; genesis *)
(* has timestamp 0.                                                         *)
Depth(h) == IF h < 70 THEN h ELSE 70
Stamp(shape, h, d) ==
  IF d = h THEN 0 ELSE
  CASE shape = "inc"    -> Old - 240 * d
    [] shape = "const"  -> Old
    [] shape = "dec"    -> Old + 240 * d
    [] shape = "alt"    -> Old + 1000 * (d % 2)
    [] shape = "half"   -> IF d <= Window(h) \div 2 THEN Old + 500 ELSE Old
    [] shape = "half1"  -> IF d <= (Window(h) \div 2) + 1 THEN Old + 500 ELSE Old
    [] shape = "half0"  -> IF d < (Window(h) \div 2) THEN Old + 501 ELSE Old
    [] shape = "edge"   -> IF d = Window(h) THEN Old + 9000 ELSE Old + (IF d > Window(h) THEN 0 - 50000 ELSE (d % 7) * 10)
    [] shape = "edge1"  -> IF d <= Window(h) THEN Old + d ELSE Old + 80000
    [] shape = "near"   -> IF d = 1 THEN Old - 70000 ELSE Old + 3 * d
    [] shape = "rand"   -> Old + ((d * (7919 + 31 * Seed) + h) % 1009) * 7
    [] shape = "rand2"  -> Old + ((d * d * 101 + Seed * d) % 97)
    [] shape = "rand3"  -> Old + (((d + Seed) * (d + Seed) * (d + 3)) % 10007) * 13
    [] OTHER -> Old
Stamps(shape, h) == [d \in 1..Depth(h) |-> Stamp(shape, h, d)]

(* The median of a sequence: mean of the two middle values when even.       *)
Median(s) == LET n == Len(s)
                 o == SortSeq(s, <)
             IN IF n % 2 = 1 THEN o[(n \div 2) + 1] ELSE (o[n \div 2] + o[(n \div 2) + 1]) \div 2

Lower(c) == IF Len(c.stamps) >= Window(c.h) THEN Median(SubSeq(c.stamps, 1, Window(c.h))) ELSE 0
Upper(c, t) == t + Future(c.h)

Ok(c, t, ts) == ts <= Upper(c, t) /\ ts >= Lower(c)

Contexts == {[h |-> h, shape |-> s, stamps |-> Stamps(s, h)] : h \in Heights, s \in Shapes}

Tries(c, t) ==
  LET l == Lower(c) IN
  {l - 1, l, l + 1, Upper(c, t), Upper(c, t) + 1}
  \cup (IF Rich THEN {0, 1, t, Old, Old - 1, Old + 100000, Upper(c, t) - 1, t + 720, t + 721, t + 1680, t + 1681} ELSE {0, t})

Init == /\ ctx \in Contexts
        /\ now = Start /\ offers = <<>> /\ done = FALSE

(* One refused block leaves things as they are; an accepted one ends it.    *)
Offer == /\ ~done
         /\ Len(offers) < 2
         /\ \E ts \in {x \in (IF offers = <<>> THEN Tries(ctx, now) ELSE {offers[1].ts}) : x >= 0} :
              /\ offers' = Append(offers, [at |-> now, ts |-> ts, ok |-> Ok(ctx, now, ts)])
              /\ done' = Ok(ctx, now, ts)
         /\ UNCHANGED <<ctx, now>>
Tick == /\ ~done /\ Len(offers) = 1 /\ now = Start
        /\ now' = now + 1
        /\ UNCHANGED <<ctx, offers, done>>
(* A sub-second wait does not change the clock of the node. *)
Next == Offer \/ Tick
Spec == Init /\ [][Next]_vars

(* The window: never refused inside, never accepted outside. *)
Inside == \A i \in 1..Len(offers) : offers[i].ok =>
             /\ offers[i].ts <= offers[i].at + Future(ctx.h)
             /\ Len(ctx.stamps) >= Window(ctx.h) => Cardinality({d \in 1..Window(ctx.h) : ctx.stamps[d] <= offers[i].ts}) * 2 >= Window(ctx.h)
(* A block refused only for being early is accepted once its time has come. *)
Patience == (Len(offers) = 2 /\ offers[1].ts = offers[1].at + Future(ctx.h) + 1 /\ offers[2].at = offers[1].at + 1) => offers[2].ok

Emit == (offers' # offers /\ (done' \/ Len(offers') = 2))
          => PrintT(ToJson([h |-> ctx.h, shape |-> ctx.shape, stamps |-> ctx.stamps, offers |-> offers']))
=============================================================================
