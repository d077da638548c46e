------------------------------- MODULE AlgLib -------------------------------
(* Inputs for the algebraic-metric generators: Hermitian positive matrices    *)
(* given as diagonal plus two rank-one parts, section bases, point layouts.   *)
EXTENDS VarLib, AlgMetric, Sections
BasisSize(v, k, red) == FullSize(v.n - 1, k) - (IF red /\ k >= v.deg THEN FullSize(v.n - 1, k - v.deg) ELSE 0)
RndH(N, s) == [d |-> [i \in 1..N |-> <<RndI(s \o <<i, 31>>, 8, 40), 0, 8>>],
               u |-> [i \in 1..N |-> RndG(s \o <<i, 32>>)], w |-> [i \in 1..N |-> RndG(s \o <<i, 33>>)]]
HNum(h) == LET d == GVec(h.d) u == GVec(h.u) w == GVec(h.w) IN
   Mat(Len(d), Len(d), LAMBDA i, j : CAdd(IF i = j THEN d[i] ELSE C0,
        CAdd(CMul(u[i], CConj(u[j])), CMul(w[i], CConj(w[j])))))
(* an exponent list of the right size (the implementation may order it        *)
(* differently or choose another reduced basis)                               *)
PmOf(v, k) == SetToSeq(Forms(v.n, k))
(* multinomial coefficients: psi = (1 + |z|^2)^k *)
RECURSIVE FactN(_)
FactN(n) == IF n = 0 THEN 1 ELSE n * FactN(n - 1)
Multinom(k, e) == CInt(FactN(k) \div FoldLeft(LAMBDA a, x : a * FactN(x), 1, e))
=============================================================================
