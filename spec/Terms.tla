------------------------------- MODULE Terms -------------------------------
(* Symbolic algebra of the curve: scalars are polynomials over atoms (secret *)
(* keys, nonces and hashes, which are different atoms for different inputs), *)
(* points are linear combinations of independent generators with scalar      *)
(* coefficients, plus a point of low order.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* a monomial is a set of <<atom, exponent>>, a polynomial a set of <<monomial, coefficient>> *)
Exp(m, a) == IF \E x \in m : x[1] = a THEN (CHOOSE x \in m : x[1] = a)[2] ELSE 0
MMul(m, n) == {<<a, Exp(m, a) + Exp(n, a)>> : a \in {x[1] : x \in m \cup n}}
Coef(p, m) == IF \E x \in p : x[1] = m THEN (CHOOSE x \in p : x[1] = m)[2] ELSE 0
Monos(p) == {x[1] : x \in p}
Norm(p) == {x \in p : x[2] # 0}
Zero == {}
Const(n) == IF n = 0 THEN {} ELSE {<<{}, n>>}
Atom(a) == {<<{<<a, 1>>}, 1>>}
Add(p, q) == Norm({<<m, Coef(p, m) + Coef(q, m)>> : m \in Monos(p) \cup Monos(q)})
Neg(p) == {<<x[1], 0 - x[2]>> : x \in p}
Sub(p, q) == Add(p, Neg(q))
RECURSIVE Mul(_, _)
Mul(p, q) == IF p = {} THEN {}
             ELSE LET x == CHOOSE x \in p : TRUE IN
                  Add({<<MMul(x[1], y[1]), x[2] * y[2]>> : y \in q}, Mul(p \ {x}, q))
RECURSIVE SumP(_)
SumP(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumP(Tail(s)))

(* A point: lin is a set of <<generator, coefficient>>; tor is the element   *)
(* of order 8 it contains, as a set of <<coefficient, multiple>> where the   *)
(* multiple is modulo 8 ("{}" when it contains none).                        *)
At(P, b) == IF \E x \in P.lin : x[1] = b THEN (CHOOSE x \in P.lin : x[1] = b)[2] ELSE Zero
Bases(P) == {x[1] : x \in P.lin}
NormL(l) == {x \in l : x[2] # Zero}
NormT(t) == {x \in t : x[2] # 0 /\ x[1] # Zero}
O == [lin |-> {}, tor |-> {}]
Base(b) == [lin |-> {<<b, Const(1)>>}, tor |-> {}]
Low(n) == [lin |-> {}, tor |-> NormT({<<Const(1), n % 8>>})]
PAdd(P, Q) == [lin |-> NormL({<<b, Add(At(P, b), At(Q, b))>> : b \in Bases(P) \cup Bases(Q)}), tor |-> P.tor \cup Q.tor]   \* at most one has a low part
PMul(s, P) == [lin |-> NormL({<<x[1], Mul(s, x[2])>> : x \in P.lin}), tor |-> NormT({<<Mul(s, x[1]), x[2]>> : x \in P.tor})]
(* multiplying by 8 removes it, and so does a scalar that is a multiple of 8 *)
Mul8(P) == [lin |-> PMul(Const(8), P).lin, tor |-> {}]
PNeg(P) == PMul(Const(0 - 1), P)
G == Base("G")
(* the point a key is hashed to is a generator of its own *)
Hp(P) == Base("Hp" \o ToString(P))
HashAtom(x) == Atom("Hs" \o ToString(x))
=============================================================================
