------------------------------ MODULE Sections ------------------------------
(* Monomial bases of the forms of given degree, also modulo one polynomial.   *)
(* Monomials are exponent vectors; p is a set of <<exponents, coefficient>>.  *)
EXTENDS Poly
RECURSIVE Forms(_, _)
Forms(n, d) == IF n = 1 THEN {<<d>>} ELSE UNION {{<<e>> \o r : r \in Forms(n - 1, d - e)} : e \in 0..d}
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k < 0 \/ k > n THEN 0 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
FullSize(dim, d) == Binom(dim + d, d)
(* size modulo a form of degree dim + 1 *)
RedSize(dim, d) == FullSize(dim, d) - (IF d >= dim + 1 THEN FullSize(dim, d - dim - 1) ELSE 0)
ExpAdd(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
AtPar(T, par) == LET A == {T[k].a : k \in 1..Len(T)}
                     co(a) == CSum(LET S == SelectSeq(T, LAMBDA t : t.a = a) IN [k \in 1..Len(S) |-> CMul(S[k].c, Mon(par, S[k].b))])
                 IN {x \in {<<a, co(a)>> : a \in A} : x[2] # C0}
CoefAt(p, a) == IF \E x \in p : x[1] = a THEN (CHOOSE x \in p : x[1] = a)[2] ELSE C0
ExpSub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
NonNeg(a) == \A k \in 1..Len(a) : a[k] >= 0
(* R is a basis of the degree-d forms modulo p (of degree e): the multiples   *)
(* of p restricted to the monomials outside R form a nonsingular matrix       *)
IsReduced(R, n, d, p, e) ==
  LET all == Forms(n, d)
      mult == IF d >= e THEN SetToSeq(Forms(n, d - e)) ELSE <<>>
      out == SetToSeq(all \ R)
  IN /\ R \subseteq all
     /\ Len(out) = Len(mult)
     /\ Len(mult) > 0 => Det(Mat(Len(mult), Len(out), LAMBDA i, j :
            LET q == ExpSub(out[j], mult[i]) IN IF NonNeg(q) THEN CoefAt(p, q) ELSE C0)) # C0
SecVals(pm, h) == Vec(Len(pm), LAMBDA i : Mon(h, pm[i]))
(* value of section i at affine coordinates z of patch q *)
SecAff(pm, z, q) == SecVals(pm, Ins(z, q + 1, C1))
=============================================================================
