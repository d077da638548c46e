------------------------------- MODULE C12Gen -------------------------------
EXTENDS AlgLib
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == AllVars
HSizes == <<1, 3, 6>>
Scn(vi, k, red, lay, r) == LET v == Vs[vi] q == <<vi, k, lay, r>> N == BasisSize(v, k, red)
                              hl == IF N > 16 THEN (lay + r) % 2 ELSE (lay + r + k) % 3 IN
   [op |-> "alg", v |-> v, k |-> k, red |-> red, lay |-> lay, hl |-> hl, N |-> N,
    indef |-> (vi + k + lay + r) % 3 = 0,
    zs |-> [b \in 1..6 |-> RndPointZ(v.n - 1, q \o <<b>>)], sc |-> [b \in 1..6 |-> NzG(q \o <<b, 12>>)],
    pars |-> [b \in 1..6 |-> RndParZ(v.np, q \o <<b, 3>>)], ps |-> [b \in 1..6 |-> RndI(q \o <<b, 5>>, 0, v.n - 1)],
    ds |-> [b \in 1..6 |-> RndI(q \o <<b, 7>>, 0, v.n - 2)],
    hs |-> [b \in 1..HSizes[hl + 1] |-> RndH(N, q \o <<b, 9>>)]]
(* also in the patches that may be chosen for the homogeneous coordinates *)
Good(s) == LET v == NumV(s.v) sz == LaySizes(s.lay) IN \A t \in 1..6 :
   /\ LET h == HomOf(GVec(At(s.zs, sz[1], t)), At(s.ps, sz[1], t)) par == GVec(At(s.pars, sz[2], t)) IN
         \A p \in BestCharts(h) : DepOk(GradAff(v, AffOf(h, p), par, p), At(s.ds, sz[4], t))
   /\ DepOk(GradAff(v, GVec(At(s.zs, sz[1], t)), GVec(At(s.pars, sz[2], t)), At(s.ps, sz[3], t)), At(s.ds, sz[4], t))
Init == ph = "pick" /\ \E vi \in 1..Len(Vs), k \in 1..3, red \in BOOLEAN, lay \in 0..7, r \in 1..Pick2(1, 2) :
          LET v == Vs[vi] IN
             /\ BasisSize(v, k, red) <= Pick2(20, 35)
             /\ (red => k >= v.deg)
             /\ (Thorough \/ k < 3 \/ lay % 4 = 2)
             /\ (Thorough \/ (vi + k + 3 * lay) % 4 = 0)
             /\ scn = <<vi, k, red, lay, r>>
Next == ph = "pick" /\ ph' = "emit" /\ scn' = Scn(scn[1], scn[2], scn[3], scn[4], scn[5]) /\ Good(scn')
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the metric is Hermitian; eta does not depend on the dependent      *)
(* coordinate; for the multinomial H the metric is the Fubini-Study metric    *)
Pt == GVec(scn.zs[1])
C(H, diag) == Core(NumV(scn.v), PmOf(scn.v, scn.k), scn.k, H, diag, Pt, GVec(scn.pars[1]), scn.ps[1])
Same(a, b, s2) == CLeq(CAbs2(CSub(a, b)), CMul(Tenm(40), s2))
HermitianMetric == ph = "emit" /\ ~scn.red => LET c == C(HNum(scn.hs[1]), FALSE) IN
   \A i, j \in 1..Len(Pt) : Same(c.g[i][j], CConj(c.g[j][i]), C1)
EtaFree == ph = "emit" /\ ~scn.red => LET c == C(HNum(scn.hs[1]), FALSE) e == EtaOf(c.g, c.G) IN
   \A d \in 0..(Len(Pt) - 1) : c.G[d + 1] # C0 => Same(CoreEta(c, d), e, CAbs2(e))
FSCase == ph = "emit" /\ ~scn.red => LET pm == PmOf(scn.v, scn.k)
      c == C([a \in 1..Len(pm) |-> Multinom(scn.k, pm[a])], TRUE) f == FSMetric(Pt, VConj(Pt)) IN
   \A i, j \in 1..Len(Pt) : Same(CMul(PI, c.g[i][j]), f[i][j], C1)
=============================================================================
