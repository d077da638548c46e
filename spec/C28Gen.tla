------------------------------- MODULE C28Gen -------------------------------
EXTENDS AlgLib, Dual
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == AllVars
Pts(n, s) == [b \in 1..2 |-> RndPointZ(n, s \o <<b>>)]
Moves == <<"zhaH", "z", "a", "H", "zhaH", "h", "za">>
FnsOf(mv) == IF mv = "zhaH" THEN <<"poly", "polyaff", "grad", "chart", "hom", "rechart", "pot", "fs", "jac", "indfs", "weight", "sections", "kpot", "metric", "eta">>
   ELSE IF mv = "z" THEN <<"polyaff", "pot", "grad", "rechart", "fs", "weight", "metric", "eta">>
   ELSE IF mv = "a" THEN <<"poly", "polyaff", "grad", "jac", "indfs", "weight", "metric", "eta">>
   ELSE IF mv = "H" THEN <<"kpot", "metric", "eta">>
   ELSE IF mv = "h" THEN <<"poly", "chart">> ELSE <<"grad", "weight", "eta">>
Along(vi, k, r) == LET v == Vs[vi] q == <<vi, k, r, 91>> N == BasisSize(v, k, FALSE) m0 == Moves[((r + vi) % Len(Moves)) + 1]
                           mv == IF m0 = "a" /\ v.np = 0 THEN "z" ELSE m0 IN
   [op |-> "along", v |-> v, k |-> k, N |-> N, batch |-> (r + k) % 2 = 0, jit |-> (r + vi + k) % 4 # 0, mv |-> mv, fns |-> FnsOf(mv),
    zs |-> Pts(v.n - 1, q \o <<1>>), dzs |-> Pts(v.n - 1, q \o <<2>>), hs |-> [b \in 1..2 |-> RndPoint(v.n, q \o <<3, b>>)], dhs |-> Pts(v.n, q \o <<4>>),
    pars |-> [b \in 1..2 |-> RndParZ(v.np, q \o <<5, b>>)], dpars |-> [b \in 1..2 |-> RndPar(v.np, q \o <<6, b>>)],
    ps |-> [b \in 1..2 |-> RndI(q \o <<7, b>>, 0, v.n - 1)], qs |-> [b \in 1..2 |-> RndI(q \o <<8, b>>, 0, v.n - 1)],
    ds |-> [b \in 1..2 |-> RndI(q \o <<9, b>>, 0, v.n - 2)], H |-> RndH(N, q \o <<10>>), dH |-> RndH(N, q \o <<11>>)]
Solve(vi, r) == LET v == Vs[vi] q == <<vi, r, 92>> IN
   [op |-> "solve", v |-> v, p |-> RndI(q \o <<1>>, 0, v.n - 1), d |-> RndI(q \o <<2>>, 0, v.n - 2), z |-> RndPoint(v.n - 2, q \o <<3>>),
    dz |-> RndPointZ(v.n - 2, q \o <<4>>), par |-> RndPar(v.np, q \o <<5>>), dpar |-> RndParZ(v.np, q \o <<6>>)]
Sample(vi, r) == LET v == Vs[vi] q == <<vi, r, 93>> IN
   [op |-> "sample", v |-> v, par |-> RndPar(v.np, q \o <<5>>), dpar |-> RndPar(v.np, q \o <<6>>), key |-> RndI(q, 0, 30000), count |-> 2 * v.deg + 1, jit |-> r % 2 = 0]
Hessian(vi, k, r) == LET v == Vs[vi] q == <<vi, k, r, 94>> N == BasisSize(v, k, FALSE) IN
   [op |-> "hessian", v |-> v, k |-> k, N |-> N, jit |-> r % 2 = 0, z |-> RndPointZ(v.n - 1, q \o <<1>>), par |-> RndParZ(v.np, q \o <<2>>),
    p |-> RndI(q \o <<3>>, 0, v.n - 1), d |-> RndI(q \o <<4>>, 0, v.n - 2), H |-> RndH(N, q \o <<5>>)]
CondOk(v, pm, k, H, z, par, p, d) == LET G == GradAff(v, z, par, p) IN DepOk(G, d) /\
   LET c == Core(v, pm, k, H, FALSE, z, par, p) g == CoreLoc(c, d) IN
   CLeq(CPow(MaxAbs2(Flat(g)), Rows(g)), CMul(CInt(100000000), CAbs2(Det(g))))
Good(s) == LET v == NumV(s.v) IN CASE
   s.op = "along" -> \A b \in 1..2 : LET z == GVec(s.zs[b]) h == HomOf(z, s.ps[b]) IN
        /\ CLeq(MaxAbs2(h), CMul(CInt(400), CAbs2(h[s.qs[b] + 1])))
        /\ CLeq(MaxAbs2(GVec(s.hs[b])), CMul(CInt(400), CAbs2(GVec(s.hs[b])[s.ps[b] + 1])))
        /\ CondOk(v, PmOf(s.v, s.k), s.k, HNum(s.H), z, GVec(s.pars[b]), s.ps[b], s.ds[b])
   [] s.op = "hessian" -> CondOk(v, PmOf(s.v, s.k), s.k, HNum(s.H), GVec(s.z), GVec(s.par), s.p, s.d)
   [] s.op = "solve" -> LET z == GVec(s.z) amb == IF s.d < s.p THEN s.d + 1 ELSE s.d + 2      \* the leading coefficient does not vanish
                            h == HomOf(Ins(z, s.d + 1, C1), s.p)
                            co == UniCoeffs(v.T, amb, h, GVec(s.par)) IN
        Len(co) > 1 /\ co[1] # C0 /\ CLeq(MaxAbs2(co), CMul(CInt(10000), CAbs2(co[1])))
   [] OTHER -> TRUE
Init == ph = "pick" /\
  \/ \E vi \in 1..Len(Vs), k \in 1..2, r \in 1..Pick2(2, 10) : BasisSize(Vs[vi], k, FALSE) <= Pick2(10, 15) /\ (Thorough \/ k = 1 \/ r = 1 + (vi % 2)) /\ scn = <<1, vi, k, r>>
  \/ \E vi \in 1..Len(Vs), r \in 1..Pick2(3, 16) : scn = <<2, vi, r>>
  \/ \E vi \in 1..Len(Vs), r \in 1..Pick2(2, 6) : Vs[vi].np > 0 /\ scn = <<3, vi, r>>
  \/ \E vi \in 1..Len(Vs), k \in 1..2, r \in 1..Pick2(2, 6) : BasisSize(Vs[vi], k, FALSE) <= 10 /\ Vs[vi].n <= 4 /\ (Thorough \/ r = 1 + ((vi + k) % 2)) /\ scn = <<4, vi, k, r>>
Next == ph = "pick" /\ ph' = "emit" /\
   scn' = (CASE scn[1] = 1 -> Along(scn[2], scn[3], scn[4]) [] scn[1] = 2 -> Solve(scn[2], scn[3])
             [] scn[1] = 3 -> Sample(scn[2], scn[3]) [] scn[1] = 4 -> Hessian(scn[2], scn[3], scn[4])) /\ Good(scn')
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the moving values agree with the values at rest, their rates with  *)
(* the difference quotients over an exact, tiny step, and the rate of the     *)
(* polynomial with its partial derivatives                                    *)
On == ph = "emit" /\ scn.op = "along" /\ scn.N <= 6
Eps == Tenm(30)
Step(x, dx) == VAdd(x, VScale(Eps, dx))
Near(a, b, s2) == CLeq(CAbs2(CSub(a, b)), CMul(Tenm(40), CMax(C1, s2)))
At0 == [v |-> NumV(scn.v), pm |-> PmOf(scn.v, scn.k), z |-> GVec(scn.zs[1]), dz |-> GVec(scn.dzs[1]), a |-> GVec(scn.pars[1]), da |-> GVec(scn.dpars[1]),
        p |-> scn.ps[1], d |-> scn.ds[1], H |-> HNum(scn.H), dH |-> HNum(scn.dH)]
Quotient == On => LET c == At0 z == Moving(c.z, c.dz) a == Moving(c.a, c.da) H == MovingM(c.H, c.dH)
                      G == DGrad(c.v, z, a, c.p) g == DMetric(c.pm, scn.k, H, z, c.p)
                      e == DEta(g, G, c.d) w == DWeight(z, G, c.d)
                      z1 == Step(c.z, c.dz) a1 == Step(c.a, c.da) H1 == MAdd(c.H, MScale(Eps, c.dH))
                      c0 == Core(c.v, c.pm, scn.k, c.H, FALSE, c.z, c.a, c.p) c1 == Core(c.v, c.pm, scn.k, H1, FALSE, z1, a1, c.p) IN
   /\ Near(e[1], CoreEta(c0, c.d), CAbs2(e[1]))
   /\ Near(e[2], CDiv(CSub(CoreEta(c1, c.d), CoreEta(c0, c.d)), Eps), CAbs2(e[2]))
   /\ Near(w[1], Weight(c.v, c.z, c.a, c.p, c.d, C1), CAbs2(w[1]))
Partial == On => LET c == At0 h == HomOf(c.z, c.p) dh == Ins(c.dz, c.p + 1, C0) IN
   DPoly(c.v.T, DHom(Moving(c.z, c.dz), c.p), Moving(c.a, c.da))[2]
     = CAdd(Dot(PGrad(c.v.T, h, c.a), dh), SumOver(Len(c.a), LAMBDA i : CMul(PEval(PDiffPar(c.v.T, i), h, c.a), c.da[i])))
=============================================================================
