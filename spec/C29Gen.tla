------------------------------- MODULE C29Gen -------------------------------
EXTENDS AlgLib, MixedSecs
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == AllVars
(* a combination: every section has a leading monomial and some others *)
RndA(rows, N, s) == [i \in 1..rows |-> [j \in 1..N |->
   IF j = ((i - 1) % N) + 1 THEN <<8 + i - ((i - 1) % N), RndI(s \o <<i, j, 1>>, -4, 4), 8>>
   ELSE IF RndN(s \o <<i, j, 2>>, 3) = 0 THEN <<RndI(s \o <<i, j, 3>>, -5, 5), RndI(s \o <<i, j, 4>>, -5, 5), 8>> ELSE <<0, 0, 8>>]]
AM(A) == [i \in 1..Len(A) |-> GVec(A[i])]
Size(N, s, lo, hi) == LET n == N + RndI(s, lo, hi) IN IF n < 2 THEN 2 ELSE n
GeoScn(vi, k, r) == LET v == Vs[vi] q == <<vi, k, r, 95>> N == BasisSize(v, k, FALSE) n == Size(N, q \o <<20>>, -1, 2) IN
   [op |-> "geo", v |-> v, k |-> k, N |-> N, batch |-> (r + k) % 2 = 0, jit |-> (r + vi) % 3 = 0,
    zs |-> [b \in 1..2 |-> RndPointZ(v.n - 1, q \o <<1, b>>)], pars |-> [b \in 1..2 |-> RndParZ(v.np, q \o <<5, b>>)],
    ps |-> [b \in 1..2 |-> RndI(q \o <<7, b>>, 0, v.n - 1)], ds |-> [b \in 1..2 |-> RndI(q \o <<9, b>>, 0, v.n - 2)],
    A |-> RndA(n, N, q \o <<10>>), B |-> RndA(n, N, q \o <<11>>), H |-> RndH(n, q \o <<12>>)]
StepScn(vi, k, r) == LET v == Vs[vi] q == <<vi, k, r, 96>> N == BasisSize(v, k, FALSE) n == Size(N, q \o <<20>>, -1, 0) IN
   [op |-> "step", v |-> v, k |-> k, N |-> N, jit |-> r % 2 = 0, par |-> RndPar(v.np, q \o <<5>>), A |-> RndA(n, N, q \o <<10>>), H |-> RndH(n, q \o <<12>>),
    key |-> RndI(q \o <<21>>, 0, 30000), vol |-> <<RndI(q \o <<22>>, 1, 40), 0, 8>>, batches |-> 1 + (r % 2), size |-> N + 3]
CondOk(v, pm, k, H, z, par, p, d) == DepOk(GradAff(v, z, par, p), d) /\
   LET g == CoreLoc(Core(v, pm, k, H, FALSE, z, par, p), d) IN
   CLeq(CPow(MaxAbs2(Flat(g)), Rows(g)), CMul(CInt(100000000), CAbs2(Det(g))))
Good(s) == s.op = "step" \/ LET v == NumV(s.v) pm == PmOf(s.v, s.k) Hn == HNum(s.H) IN
   \A b \in 1..2 : /\ CondOk(v, pm, s.k, EffH(AM(s.A), Hn), GVec(s.zs[b]), GVec(s.pars[b]), s.ps[b], s.ds[b])
                   /\ CondOk(v, pm, s.k, EffH(AM(s.B), Hn), GVec(s.zs[b]), GVec(s.pars[b]), s.ps[b], s.ds[b])
Init == ph = "pick" /\
  \/ \E vi \in 1..Len(Vs), k \in 1..3, r \in 1..Pick2(2, 6) : BasisSize(Vs[vi], k, FALSE) <= Pick2(6, 10) /\ scn = <<1, vi, k, r>>
  \/ \E vi \in 1..Len(Vs), k \in 1..2, r \in 1..Pick2(2, 6) : BasisSize(Vs[vi], k, FALSE) <= Pick2(10, 15) /\ k < Vs[vi].deg /\ scn = <<2, vi, k, r>>
Next == ph = "pick" /\ ph' = "emit" /\
   scn' = (IF scn[1] = 1 THEN GeoScn(scn[2], scn[3], scn[4]) ELSE StepScn(scn[2], scn[3], scn[4])) /\ Good(scn')
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the potential of the combined sections is that of the monomials    *)
(* with the effective matrix, which is Hermitian; and the average of products *)
(* contracted with H is the number of sections times the mean weight          *)
Potential == ph = "emit" /\ scn.op = "geo" =>
   LET A == AM(scn.A) Hn == HNum(scn.H) pm == PmOf(scn.v, scn.k) E == EffH(A, Hn)
       z == GVec(scn.zs[1]) s == SecAff(pm, z, scn.ps[1]) t == MixAff(A, pm, z, scn.ps[1])
   IN E = MH(E) /\ Dot(t, MVec(Hn, VConj(t))) = Dot(s, MVec(E, VConj(s)))
Smp == [i \in 1..4 |-> [z |-> GVec(RndPoint(scn.v.n - 1, <<scn.N, i, 81>>)), p |-> RndI(<<scn.N, i, 82>>, 0, scn.v.n - 1), w |-> CFrac(RndI(<<scn.N, i, 83>>, 1, 30), 0, 8)]]
Trace1 == ph = "emit" /\ scn.op = "step" /\ scn.N <= 6 =>
   LET A == AM(scn.A) Hn == HNum(scn.H) vol == GNum(scn.vol) T == MixT(A, PmOf(scn.v, scn.k), Hn, Smp, vol) n == Rows(A)
       w == CSum([i \in 1..4 |-> Smp[i].w])
       x == SumOver(n, LAMBDA a : SumOver(n, LAMBDA b : CMul(T[a][b], Hn[a][b])))
   IN CLeq(CAbs2(CSub(x, CDiv(CMul(CInt(n), w), CMul(CInt(4), vol)))), Tenm(60))
=============================================================================
