------------------------------- MODULE C09Gen -------------------------------
EXTENDS VarLib
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == SubSeq(AllVars, 1, 14)
Pts(v, k) == [b \in 1..6 |-> RndPointZ(v.n - 1, <<v.n, v.deg, k, b>>)]
Pars(v, k) == [b \in 1..6 |-> RndParZ(v.np, <<v.n, k, b, 3>>)]
Pat(v, k) == [b \in 1..6 |-> RndI(<<v.n, k, b, 5>>, 0, v.n - 1)]
Dep(v, k) == [b \in 1..6 |-> RndI(<<v.n, k, b, 7>>, 0, v.n - 2)]
Vols == <<"default", "none", "value">>
BatchScn(vi, k, lay) == LET v == Vs[vi] kk == k * 8 + lay + 100 * vi IN
   [op |-> "batch", v |-> v, lay |-> lay, zs |-> Pts(v, kk), pars |-> Pars(v, kk),
    ps |-> Pat(v, kk), ds |-> Dep(v, kk), vol |-> Vols[((kk + lay) % 3) + 1], volv |-> <<RndI(<<kk, 8>>, 1, 40), 0, 8>>]
Good(s) == LET v == NumV(s.v) sz == LaySizes(s.lay) IN \A t \in 1..LayMax(s.lay) :
   DepOk(GradAff(v, GVec(At(s.zs, sz[1], t)), GVec(At(s.pars, sz[2], t)), At(s.ps, sz[3], t)), At(s.ds, sz[4], t))
(* one point of a Calabi-Yau variety, exactly on it, seen in all coordinates *)
CY == SelectSeq(AllVars, LAMBDA v : v.deg = v.n /\ LinPar(v) # {})
InvScn(vi, k) == LET v == CY[vi]
                     h == RndPoint(v.n, <<v.n, k, vi, 61>>)
                     par == OnPar(v, GVec(h), GVec(RndPar(v.np, <<v.n, k, 62>>)))
                 IN [op |-> "inv", v |-> v, lay |-> k, h |-> h, par |-> par]
Init == ph = "pick" /\ \/ \E vi \in 1..Len(Vs), k \in 1..Pick2(2, 8), lay \in 0..7 : scn = <<1, vi, k, lay>>
                       \/ \E vi \in 1..Len(CY), k \in 1..Pick2(6, 16) : scn = <<2, vi, k, 0>>
Next == /\ ph = "pick" /\ ph' = "emit"
        /\ scn' = IF scn[1] = 1 THEN BatchScn(scn[2], scn[3], scn[4]) ELSE InvScn(scn[2], scn[3])
        /\ IF scn[1] = 1 THEN Good(scn') ELSE \A i \in 1..scn'.v.np : IsNum(scn'.par[i]) /\ CLeq(CAbs2(scn'.par[i]), CInt(900))
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: exactly on the variety, the weight is the same in all coordinates  *)
Ratio(v, h, par, p, d) == LET z == AffOf(h, p) G == GradAff(v, z, par, p) IN
    CDiv(DVol(v, z, par, p, d, <<>>), DFs(v, z, par, p, d, <<>>))
Invariance == (ph = "emit" /\ scn.op = "inv") =>
   LET v == NumV(scn.v) h == GVec(scn.h)
       G(p) == GradAff(v, AffOf(h, p), scn.par, p)
       all == {Ratio(v, h, scn.par, pd[1], pd[2]) : pd \in {x \in (0..(v.n - 1)) \X (0..(v.n - 2)) : G(x[1])[x[2] + 1] # C0}}
   IN QHom(v, h, scn.par) = C0 /\ Cardinality(all) = 1
=============================================================================
