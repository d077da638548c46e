------------------------------- MODULE C14Gen -------------------------------
EXTENDS AlgLib, CoordChange
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == SelectSeq(AllVars, LAMBDA v : LinPar(v) # {})
(* views of one point: patches not near its boundary, dependents with a       *)
(* gradient entry that is not small                                           *)
Views(v, h, par) == {x \in (0..(v.n - 1)) \X (0..(v.n - 2)) :
   /\ CLeq(MaxAbs2(h), CMul(CInt(100), CAbs2(h[x[1] + 1])))
   /\ DepOk(GradAff(v, AffOf(h, x[1]), par, x[1]), x[2])}
Cyc(s, k) == [i \in 1..k |-> s[((i - 1) % Len(s)) + 1]]
Inv1(vi, k, r) == LET v == Vs[vi] q == <<vi, k, r, 51>> N == BasisSize(v, k, FALSE)
      h == RndPoint(v.n, q)
      par == OnPar(v, GVec(h), GVec(RndPar(v.np, q \o <<3>>)))
      vw == SetToSeq(Views(NumV(v), GVec(h), par))
      o == RndI(q \o <<4>>, 0, 20)
      rot == [i \in 1..Len(vw) |-> vw[((i + o) % Len(vw)) + 1]]
   IN [op |-> "views", v |-> v, lay |-> 0, k |-> k, N |-> N, r |-> r + vi, h |-> h, par |-> par,
       vw |-> IF vw = <<>> THEN <<>> ELSE Cyc(rot, 6), sc |-> [b \in 1..3 |-> NzG(q \o <<b, 12>>)], H |-> RndH(N, q \o <<9>>)]
(* histories of reads from one geometry object *)
Attrs == << "psi", "kahler", "g_proj", "g_loc", "eta", "ricci_scalar", "g_loc_inv", "ricci_loc", "s_1", "psi_hhaa", "jac", "jac_h",
            "dependent", "grad_def", "g_proj_ha", "g_loc_ha", "ricci_proj", "psi_a", "g_proj_a", "g_loc_a", "s_2", "s", "patch", "zs" >>
ReadScn(vi, k, r) == LET v == Vs[vi] q == <<vi, k, r, 53>> N == BasisSize(v, k, FALSE) IN
   [op |-> "reads", v |-> v, lay |-> 1, k |-> k, N |-> N, z |-> RndPointZ(v.n - 1, q), sc |-> NzG(q \o <<12>>), par |-> RndPar(v.np, q \o <<3>>),
    p |-> RndI(q \o <<5>>, 0, v.n - 1), d |-> RndI(q \o <<7>>, 0, v.n - 2), H |-> RndH(N, q \o <<9>>),
    mode |-> RndOf(q \o <<11>>, <<"affine", "homogeneous", "gradient", "dependent", "both">>),
    reads |-> [i \in 1..Pick2(8, 12) |-> RndOf(q \o <<i, 13>>, Attrs)]]
Init == ph = "pick" /\
  \/ \E vi \in 1..Len(Vs), k \in 1..2, r \in 1..Pick2(2, 4) : BasisSize(Vs[vi], k, FALSE) <= Pick2(10, 15) /\ scn = <<1, vi, k, r>>
  \/ \E vi \in 1..Len(Vs), k \in 1..2, r \in 1..Pick2(2, 6) : BasisSize(Vs[vi], k, FALSE) <= 15 /\ scn = <<2, vi, k, r>>
GoodV(s) == /\ \A i \in 1..s.v.np : IsNum(s.par[i]) /\ CLeq(CAbs2(s.par[i]), CInt(400)) /\ CLeq(CFrac(1, 0, 1000), CAbs2(s.par[i]))
            /\ Len(s.vw) > 0
            /\ LET v == NumV(s.v) p == s.vw[1][1] d == s.vw[1][2]
                   g == CoreLoc(Core(v, PmOf(s.v, s.k), s.k, HNum(s.H), FALSE, AffOf(GVec(s.h), p), s.par, p), d)
               IN CLeq(CPow(MaxAbs2(Flat(g)), Rows(g)), CMul(CInt(1000000), CAbs2(Det(g))))
GoodR(s) == DepOk(GradAff(NumV(s.v), GVec(s.z), GVec(s.par), s.p), s.d)
Next == ph = "pick" /\ ph' = "emit" /\
   (IF scn[1] = 1 THEN scn' = Inv1(scn[2], scn[3], scn[4]) /\ GoodV(scn')
    ELSE scn' = ReadScn(scn[2], scn[3], scn[4]) /\ GoodR(scn'))
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the laws hold exactly for the algebraic ansatz *)
Same(a, b) == CLeq(CAbs2(CSub(a, b)), CMul(Tenm(40), CMax(C1, CAbs2(a))))
Laws == ph = "emit" /\ scn.op = "views" /\ scn.N <= 6 =>
   LET v == NumV(scn.v) h == GVec(scn.h) H == HNum(scn.H) pm == PmOf(scn.v, scn.k)
       at(x) == Geo(v, pm, scn.k, H, FALSE, AffOf(h, x[1]), scn.par, x[1], x[2], TRUE)
       a == at(scn.vw[1]) b == at(scn.vw[2])
       W == LocChange(v, h, scn.par, scn.vw[1][1], scn.vw[1][2], scn.vw[2][1], scn.vw[2][2])
       g2 == Moved(W, b.loc) r2 == Moved(W, b.rl)
   IN /\ QHom(v, h, scn.par) = C0
      /\ Same(PotInv(h, scn.vw[1][1], scn.k, a.psi), PotInv(h, scn.vw[2][1], scn.k, b.psi))
      /\ Same(EtaInv(h, scn.vw[1][1], scn.v.n, scn.v.deg, a.eta), EtaInv(h, scn.vw[2][1], scn.v.n, scn.v.deg, b.eta))
      /\ Same(a.scalar, b.scalar)
      /\ \A i, j \in 1..Rows(g2) : Same(a.loc[i][j], g2[i][j]) /\ Same(a.rl[i][j], r2[i][j])
=============================================================================
