------------------------------- MODULE C07Gen -------------------------------
EXTENDS VarLib, Sections
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == AllVars
Full(dim, d, k) == [op |-> "full", dim |-> dim, d |-> d, k |-> k, lay |-> (k + d) % 8,
   hs |-> [b \in 1..6 |-> RndPoint(dim + 1, <<dim, d, k, b>>)], ps |-> [b \in 1..6 |-> RndI(<<dim, d, k, b, 4>>, 0, dim)]]
(* parameter choices: 1.. random, 0 all zero, -1 the first zero *)
Par(v, k) == [i \in 1..v.np |-> IF k = 0 \/ (k = -1 /\ i = 1) THEN <<0, 0, 1>> ELSE NzG(<<v.n, k + 5, i, 77>>)]
Red(vi, d, k) == LET v == Vs[vi] IN [op |-> "reduced", v |-> v, d |-> d, par |-> Par(v, k), cy |-> v.deg = v.n,
   lay |-> (k + d + 7) % 8,
   hs |-> [b \in 1..6 |-> RndPoint(v.n, <<vi, d, k + 5, b>>)], ps |-> [b \in 1..6 |-> RndI(<<vi, d, k + 5, b, 4>>, 0, v.n - 1)]]
Init == ph = "pick" /\
   \/ \E dim \in 1..5, d \in 0..5, k \in 1..Pick2(2, 6) : FullSize(dim, d) <= Pick2(130, 260) /\ scn = <<1, dim, d, k>>
   \/ \E vi \in 1..Len(Vs), d \in 1..7, k \in (-1)..Pick2(1, 3) :
        LET v == Vs[vi] IN /\ FullSize(v.n - 1, d) <= Pick2(130, 220)
                           /\ d >= v.deg => FullSize(v.n - 1, d - v.deg) <= Pick2(15, 35)
                           /\ (k <= 0 => v.np > 0) /\ scn = <<2, vi, d, k>>
Next == ph = "pick" /\ ph' = "emit" /\ scn' = (IF scn[1] = 1 THEN Full(scn[2], scn[3], scn[4]) ELSE Red(scn[2], scn[3], scn[4]))
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: counts, and leaving out the multiples of a leading monomial is a   *)
(* basis modulo the polynomial                                                *)
Counts == ph = "emit" /\ scn.op = "full" => Cardinality(Forms(scn.dim + 1, scn.d)) = FullSize(scn.dim, scn.d)
LexLess(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
LeadBasis == ph = "emit" /\ scn.op = "reduced" =>
   LET v == NumV(scn.v) p == AtPar(v.T, GVec(scn.par)) IN p # {} =>
     LET lead == (CHOOSE x \in p : \A y \in p : x = y \/ LexLess(y[1], x[1]))[1]
         R == {a \in Forms(scn.v.n, scn.d) : ~NonNeg(ExpSub(a, lead))}
     IN IsReduced(R, scn.v.n, scn.d, p, scn.v.deg) /\ (scn.cy => Cardinality(R) = RedSize(scn.v.n - 1, scn.d))
=============================================================================
