------------------------------- MODULE C15Gen -------------------------------
EXTENDS AlgLib, Donaldson
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == SubSeq(AllVars, 1, 12)
HModes == <<"complex", "real", "skew", "complex", "identity">>
Inject == <<"none", "nan", "none", "inf", "neginf">>
(* a history of steps: keys and volumes; each starts from the matrix before *)
Scn(vi, k, red, r) == LET v == Vs[vi] q == <<vi, k, r, 71>> N == BasisSize(v, k, red)
     B == 1 + (r % 3) n == ((2 * N + 4) \div B) + 1 + RndI(q, 0, 3) IN
   [op |-> "steps", v |-> v, lay |-> r, k |-> k, red |-> red, N |-> N, par |-> RndPar(v.np, q \o <<3>>), H |-> RndH(N, q \o <<9>>),
    skew |-> RndPoint(N, q \o <<10>>), mode |-> HModes[((r + vi) % 5) + 1], inject |-> Inject[((r + 2 * vi + k) % 5) + 1],
    batches |-> B, size |-> n, jit |-> r % 2 = 0,
    steps |-> [i \in 1..Pick2(2, 3) |-> [key |-> RndI(q \o <<i, 21>>, 0, 30000), vol |-> <<RndI(q \o <<i, 22>>, 1, 40), 0, 8>>]]]
Init == ph = "pick" /\ \E vi \in 1..Len(Vs), k \in 1..2, red \in BOOLEAN, r \in 1..Pick2(3, 9) :
   LET v == Vs[vi] IN BasisSize(v, k, red) <= Pick2(10, 15) /\ (red <=> k >= v.deg) /\ (Thorough \/ k = 1 \/ r = 1 + (vi % 3)) /\ scn = <<vi, k, red, r>>
Next == ph = "pick" /\ ph' = "emit" /\ scn' = Scn(scn[1], scn[2], scn[3], scn[4])
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: on an arbitrary sample, sum_ab T_ab H_ab is the number of sections *)
(* times the mean weight over the volume, T is Hermitian, T does not see the  *)
(* skew part, and scaling H by c scales T by 1/c                              *)
Smp == [i \in 1..6 |-> [z |-> GVec(RndPoint(scn.v.n - 1, <<scn.N, i, 81>>)), p |-> RndI(<<scn.N, i, 82>>, 0, scn.v.n - 1),
                        w |-> IF i = 3 THEN NaN ELSE CFrac(RndI(<<scn.N, i, 83>>, 1, 30), 0, 8)]]
Same(a, b) == CLeq(CAbs2(CSub(a, b)), Tenm(60))
Laws == ph = "emit" /\ ~scn.red /\ scn.N <= 6 =>
   LET pm == PmOf(scn.v, scn.k) H == HNum(scn.H) vol == GNum(scn.steps[1].vol) T == BalancedT(pm, H, Smp, vol)
       K == Mat(scn.N, scn.N, LAMBDA i, j : CAdd(H[i][j], CMul(CIu, CAdd(GNum(scn.skew[i]), CConj(GNum(scn.skew[j]))))))
       T2 == BalancedT(pm, K, Smp, vol)
       T3 == BalancedT(pm, MScale(CInt(3), H), Smp, vol)
       w == CSum([i \in 1..6 |-> IF Smp[i].w = NaN THEN C0 ELSE Smp[i].w])
   IN /\ Same(SumOver(scn.N, LAMBDA a : SumOver(scn.N, LAMBDA b : CMul(T[a][b], H[a][b]))), CDiv(CMul(CInt(scn.N), w), CMul(CInt(6), vol)))
      /\ \A i, j \in 1..scn.N : Same(T[i][j], CConj(T[j][i])) /\ Same(T[i][j], T2[i][j]) /\ Same(CMul(CInt(3), T3[i][j]), T[i][j])
=============================================================================
