------------------------------- MODULE C24Gen -------------------------------
(* Number formats, containers and program transformations: every combination  *)
(* of precision mode, format of points, format of parameters, integer format  *)
(* of patches and transformation is a behaviour of its own; values must not   *)
(* depend on it.                                                              *)
EXTENDS AlgLib
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == << VDwork(3, -5), VQuad4, VCubic3, VPlane(4), VDwork(4, 1), VPlane(3), VFermat(3), VQuad5 >>
Fns == << "chart", "auto", "hom", "fs", "pot", "poly", "polyaff", "grad", "best", "jac", "indfs", "weight",
          "sections", "expk", "metric", "eta", "ricci", "sample",
          "rechart", "solve", "chol", "loss" >>
Pts == << "jax128", "jax64", "np128", "np64" >>
Pars == << "complex", "real", "int" >>
Trs == << "plain", "jit", "vmap", "jitvmap", "map", "item" >>
Ints == << "i32", "i64", "np" >>
Single(f) == ~f.x64 \/ Pts[f.pt] \in {"jax64", "np64"}
ParOf(f, np, q) == [i \in 1..np |-> CASE Pars[f.par] = "complex" -> NzG(q \o <<i, 77>>)
                                     [] Pars[f.par] = "real" -> <<RndI(q \o <<i, 78>>, 1, 15) - 8 * RndN(q \o <<i, 79>>, 2), 0, 8>>
                                     [] OTHER -> <<RndI(q \o <<i, 80>>, -2, 2), 0, 1>>]
Scn(f, r) == LET q == <<f.pt, f.par, f.tr, f.int, IF f.x64 THEN 1 ELSE 0, IF f.npar THEN 1 ELSE 0, r>>
                 vi == 1 + RndN(q \o <<90>>, Len(Vs)) v == Vs[vi]
                 k == IF v.n = 3 THEN RndI(q \o <<91>>, 1, 3) ELSE RndI(q \o <<91>>, 1, 2)
                 N == BasisSize(v, k, FALSE) o == RndN(q \o <<92>>, 22) IN
   [op |-> "form", v |-> v, lay |-> IF f.x64 THEN 64 ELSE 32, k |-> k, N |-> N, x64 |-> f.x64, single |-> Single(f),
    pt |-> Pts[f.pt], par |-> Pars[f.par], npar |-> f.npar, tr |-> Trs[f.tr], int |-> Ints[f.int],
    fns |-> [i \in 1..Pick2(7, 11) |-> Fns[((o + 5 * i) % 22) + 1]],
    zs |-> [b \in 1..3 |-> RndPoint(v.n - 1, q \o <<b>>)], sc |-> [b \in 1..3 |-> NzG(q \o <<b, 12>>)],
    pars |-> [b \in 1..3 |-> ParOf(f, v.np, q \o <<b>>)], ps |-> [b \in 1..3 |-> RndI(q \o <<b, 5>>, 0, v.n - 1)],
    ds |-> [b \in 1..3 |-> RndI(q \o <<b, 7>>, 0, v.n - 2)], keys |-> [b \in 1..3 |-> RndI(q \o <<b, 13>>, 0, 30000)], H |-> RndH(N, q \o <<9>>)]
Num1(s, t) == [z |-> GVec(s.zs[t]), par |-> GVec(s.pars[t]), p |-> s.ps[t], d |-> s.ds[t]]
(* points at which the formulas are well conditioned *)
Good(s) == \A t \in 1..3 : LET x == Num1(s, t) v == NumV(s.v) G == GradAff(v, x.z, x.par, x.p)
                               g == CoreLoc(Core(v, PmOf(s.v, s.k), s.k, HNum(s.H), FALSE, x.z, x.par, x.p), x.d) IN
   /\ DepOk(G, x.d)
   /\ CLeq(CPow(MaxAbs2(Flat(g)), Rows(g)), CMul(CInt(2000), CAbs2(Det(g))))
Init == ph = "pick" /\ scn \in {<<f, r>> : f \in {[pt |-> a, par |-> b, tr |-> c, int |-> d, x64 |-> e, npar |-> g] :
              a \in 1..4, b \in 1..3, c \in 1..6, d \in 1..3, e \in BOOLEAN, g \in BOOLEAN}, r \in 1..3}
        /\ LET f == scn[1] IN
             /\ (~f.x64 => Pts[f.pt] # "jax128")
             /\ ((f.pt + 2 * f.par + 3 * f.tr + 5 * f.int + (IF f.x64 THEN 1 ELSE 0) + (IF f.npar THEN 2 ELSE 0) + scn[2]) % Pick2(9, 4) = Seed % Pick2(9, 4))
Next == ph = "pick" /\ ph' = "emit" /\ scn' = Scn(scn[1], scn[2]) /\ Good(scn')
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the volume density and eta do not depend on the dependent          *)
(* coordinate chosen for a point, so they can be judged without it            *)
Same(a, b, s2) == CLeq(CAbs2(CSub(a, b)), CMul(Tenm(40), s2))
WeightFree == ph = "emit" => LET x == Num1(scn, 1) v == NumV(scn.v) G == GradAff(v, x.z, x.par, x.p) w == Weight(v, x.z, x.par, x.p, x.d, C1) IN
   \A d \in 0..(Len(G) - 1) : G[d + 1] # C0 => Same(Weight(v, x.z, x.par, x.p, d, C1), w, CAbs2(w))
=============================================================================
