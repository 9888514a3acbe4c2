------------------------------- MODULE Merkle -------------------------------
(* The tree hash of a list, as a term over its hashes, and of a leaf with its *)
(* branch.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, D
VARIABLES phase, n, edit
vars == <<phase, n, edit>>

H(x, y) == "(" \o x \o "," \o y \o ")"
RECURSIVE Below(_, _)
Below(p, k) == IF 2 * p < k THEN Below(2 * p, k) ELSE p    \* the largest power of two below k
Pairs(s) == [j \in 1..(Len(s) \div 2) |-> H(s[2 * j - 1], s[2 * j])]
RECURSIVE Up(_)
Up(s) == IF Len(s) = 1 THEN s[1] ELSE Up(Pairs(s))
Root(s) == IF Len(s) = 1 THEN s[1]
           ELSE LET p == Below(1, Len(s)) keep == 2 * p - Len(s) IN
                Up(SubSeq(s, 1, keep) \o Pairs(SubSeq(s, keep + 1, Len(s))))
(* the branch is given from the top of the tree down                         *)
RECURSIVE Fold(_, _)
Fold(leaf, branch) == IF branch = <<>> THEN leaf ELSE Fold(H(leaf, branch[Len(branch)]), SubSeq(branch, 1, Len(branch) - 1))

Leaf(j) == "l" \o ToString(j)
List(k) == [j \in 1..k |-> Leaf(j)]
Edits(k) == {[k |-> "none", i |-> 0, j |-> 0], [k |-> "append", i |-> 0, j |-> 0]}
            \cup {[k |-> "change", i |-> i, j |-> 0] : i \in 1..k} \cup {[k |-> "swap", i |-> i, j |-> j] : i \in 1..k, j \in 1..k}
            \cup {[k |-> "zero", i |-> i, j |-> j] : i \in 1..k, j \in 1..k} \cup {[k |-> "copy", i |-> i, j |-> j] : i \in 1..k, j \in 1..k}
            \cup {[k |-> "drop", i |-> i, j |-> 0] : i \in 1..k} \cup {[k |-> "double", i |-> i, j |-> 0] : i \in 1..k}
Apply(s, e) ==
  CASE e.k = "none" -> s [] e.k = "append" -> Append(s, "new") [] e.k = "change" -> [s EXCEPT ![e.i] = "new"]
    [] e.k = "swap" -> [s EXCEPT ![e.i] = s[e.j], ![e.j] = s[e.i]]
    [] e.k = "zero" -> [q \in 1..Len(s) |-> IF q \in e.i..e.j THEN "zero" ELSE s[q]]
    [] e.k = "copy" -> [s EXCEPT ![e.i] = s[e.j]]
    [] e.k = "drop" -> SubSeq(s, 1, e.i - 1) \o SubSeq(s, e.i + 1, Len(s))
    [] e.k = "double" -> SubSeq(s, 1, e.i) \o SubSeq(s, e.i, Len(s))
Roots == [k \in 1..N |-> Root(List(k))]

BranchEdits(k) == {[k |-> "none", i |-> 0, j |-> 0]} \cup {[k |-> "zero", i |-> i, j |-> j] : i \in 1..k, j \in {q \in {1, 2, 5, 9, 17, k - 1, k} : q <= k}}
                  \cup {[k |-> "leaf", i |-> i, j |-> 0] : i \in 1..k}
Init == \/ phase = "list" /\ n \in 1..N /\ edit = [k |-> "none", i |-> 0, j |-> 0]
        \/ phase = "branch" /\ n \in 0..D /\ edit \in {e \in BranchEdits(n) : e.k = "zero" => e.i <= e.j}
Change == phase = "list" /\ \E e \in Edits(n) : (e.k = "swap" => e.i < e.j) /\ (e.k = "drop" => n > 1) /\ (e.k = "zero" => e.i <= e.j) /\ (e.k = "copy" => e.i # e.j) /\ edit' = e /\ phase' = "edited" /\ UNCHANGED n
Next == Change
Spec == Init /\ [][Next]_vars
Commits == phase = "edited" => (Root(Apply(List(n), edit)) = Roots[n]) = (edit.k = "none")
Emit == PrintT(ToJson([n |-> n, e |-> edit', r |-> Root(Apply(List(n), edit')), b |-> FALSE]))
EmitB == phase = "branch" => PrintT(ToJson([n |-> n, e |-> edit, r |-> Fold(Leaf(0), IF edit.k = "leaf" THEN [List(n) EXCEPT ![edit.i] = Leaf(0)] ELSE Apply(List(n), edit)), b |-> TRUE]))
=============================================================================
