------------------------------- MODULE C10Gen -------------------------------
EXTENDS VarLib
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == SubSeq(AllVars, 1, Pick2(12, 14))
Pts(v, k) == [b \in 1..6 |-> RndPointZ(v.n - 1, <<v.n, v.deg, k, b>>)]
PtsC(v, k) == [b \in 1..6 |-> RndPointZ(v.n - 1, <<v.n, v.deg, k, b, 501>>)]
Pars(v, k) == [b \in 1..6 |-> RndParZ(v.np, <<v.n, k, b, 3>>)]
Pat(v, k) == [b \in 1..6 |-> RndI(<<v.n, k, b, 5>>, 0, v.n - 1)]
Dep(v, k) == [b \in 1..6 |-> RndI(<<v.n, k, b, 7>>, 0, v.n - 2)]
MetC(v, k) == [b \in 1..6 |-> [i \in 1..(v.n - 1) |-> RndPointZ(v.n - 1, <<v.n, k, b, i, 9>>)]]
Scn(vi, k, lay) == LET v == Vs[vi] kk == k * 8 + lay + 100 * vi IN
   [op |-> "geo", v |-> v, lay |-> lay, zs |-> Pts(v, kk), zc |-> PtsC(v, kk), pars |-> Pars(v, kk),
    ps |-> Pat(v, kk), ds |-> Dep(v, kk), g |-> MetC(v, kk)]
(* the dependent gradient entries of all combinations that occur *)
Good(s) == LET v == NumV(s.v) sz == LaySizes(s.lay) IN \A t \in 1..LayMax(s.lay) :
   LET z == GVec(At(s.zs, sz[1], t)) zc == GVec(At(s.zc, sz[1], t))
       par == GVec(At(s.pars, sz[2], t)) p == At(s.ps, sz[3], t) d == At(s.ds, sz[4], t) IN
   FSNorm(z, zc) # C0 /\ DepOk(GradAff(v, z, par, p), d) /\ DepOk(GradAffC(v, zc, par, p), d)
Init == ph = "pick" /\ \E vi \in 1..Len(Vs), k \in 1..Pick2(2, 8), lay \in 0..7 : scn = <<vi, k, lay>>
Next == ph = "pick" /\ ph' = "emit" /\ scn' = Scn(scn[1], scn[2], scn[3]) /\ Good(scn')
Spec == Init /\ [][Next]_vars
Chosen == ph = "emit"
Emitted == Chosen => Emit(scn)
(* design: the pullback determinant agrees with the cofactor formula, and the *)
(* Jacobian rows are tangent (annihilated by the gradient)                    *)
Tangent == Chosen => LET v == NumV(scn.v) z == GVec(scn.zs[1]) G == GradAff(v, z, GVec(scn.pars[1]), scn.ps[1])
               Jc == EmbedJac(G, scn.ds[1]) IN \A k \in 1..Len(Jc) : Dot(Jc[k], G) = C0
Cofactor == Chosen => LET v == NumV(scn.v) z == GVec(scn.zs[1]) G == GradAff(v, z, GVec(scn.pars[1]), scn.ps[1])
               g == FSMetric(z, VConj(z)) IN Det(InducedR(g, G, scn.ds[1])) = DetByCofactor(g, G, scn.ds[1])
EulerLaw == Chosen => LET v == NumV(scn.v) h == HomOf(GVec(scn.zs[1]), scn.ps[1]) par == GVec(scn.pars[1]) IN
               Dot(h, GradHom(v, h, par)) = CMul(CInt(scn.v.deg), QHom(v, h, par))
=============================================================================
