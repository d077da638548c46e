------------------------------- MODULE C13Gen -------------------------------
EXTENDS AlgLib
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == AllVars
Modes == <<"full", "diagonal", "homogeneous", "chosen", "log", "full", "diagonal", "jit">>
Obj(vi, k, r) == LET v == Vs[vi] q == <<vi, k, r, 41>> N == BasisSize(v, k, FALSE) mode == Modes[((r + vi + k) % 8) + 1] IN
   [op |-> "object", v |-> v, k |-> k, lay |-> 0, mode |-> mode, N |-> N,
    z |-> IF mode = "log" THEN RndPoint(v.n - 1, q) ELSE RndPointZ(v.n - 1, q), sc |-> NzG(q \o <<12>>), par |-> RndParZ(v.np, q \o <<3>>), p |-> RndI(q \o <<5>>, 0, v.n - 1),
    d |-> RndI(q \o <<7>>, 0, v.n - 2), h |-> RndH(N, q \o <<9>>)]
HSizes == <<1, 3, 6>>
Bat(vi, k, lay) == LET v == Vs[vi] q == <<vi, k, lay, 43>> N == BasisSize(v, k, FALSE) hl == (lay + k) % 3 IN
   [op |-> "ricci", v |-> v, k |-> k, lay |-> lay, hl |-> hl, N |-> N, jit |-> (vi + k) % 2 = 0,
    zs |-> [b \in 1..6 |-> RndPointZ(v.n - 1, q \o <<b>>)], sc |-> [b \in 1..6 |-> NzG(q \o <<b, 12>>)],
    pars |-> [b \in 1..6 |-> RndParZ(v.np, q \o <<b, 3>>)], ps |-> [b \in 1..6 |-> RndI(q \o <<b, 5>>, 0, v.n - 1)],
    ds |-> [b \in 1..6 |-> RndI(q \o <<b, 7>>, 0, v.n - 2)],
    hs |-> [b \in 1..HSizes[hl + 1] |-> RndH(N, q \o <<b, 9>>)]]
(* well conditioned: determinant not small against the entries *)
CondOk(v, pm, k, H, z, par, p, d) == LET G == GradAff(v, z, par, p) IN DepOk(G, d) /\
   LET c == Core(v, pm, k, H, FALSE, z, par, p) g == CoreLoc(c, d) IN
   CLeq(CPow(MaxAbs2(Flat(g)), Rows(g)), CMul(CInt(100000000), CAbs2(Det(g))))
GoodObj(s) == CondOk(NumV(s.v), PmOf(s.v, s.k), s.k, HNum(s.h), GVec(s.z), GVec(s.par), s.p, s.d)
GoodBat(s) == LET v == NumV(s.v) sz == LaySizes(s.lay) pm == PmOf(s.v, s.k) IN
   \A t \in 1..6 : CondOk(v, pm, s.k, HNum(At(s.hs, Len(s.hs), t)), GVec(At(s.zs, sz[1], t)),
                          GVec(At(s.pars, sz[2], t)), At(s.ps, sz[3], t), At(s.ds, sz[4], t))
Init == ph = "pick" /\
  \/ \E vi \in 1..Len(Vs), k \in 1..3, r \in 1..Pick2(3, 12) :
       BasisSize(Vs[vi], k, FALSE) <= Pick2(15, 20) /\ (k < 3 \/ r % 3 = 1) /\ scn = <<1, vi, k, r>>
  \/ \E vi \in 1..Len(Vs), k \in 1..2, lay \in 0..7 :
       BasisSize(Vs[vi], k, FALSE) <= Pick2(10, 15) /\ (Thorough \/ (vi + 3 * k + 5 * lay) % 12 = 0) /\ scn = <<2, vi, k, lay>>
Next == ph = "pick" /\ ph' = "emit" /\
   (IF scn[1] = 1 THEN scn' = Obj(scn[2], scn[3], scn[4]) /\ GoodObj(scn')
    ELSE scn' = Bat(scn[2], scn[3], scn[4]) /\ GoodBat(scn'))
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the jets agree with the closed form, the Ricci tensor is Hermitian, *)
(* and a hyperplane with the Fubini-Study metric is Einstein                   *)
At1 == ph = "emit" /\ scn.op = "object" /\ scn.N <= 10
Same(a, b, s2) == CLeq(CAbs2(CSub(a, b)), CMul(Tenm(40), s2))
MSame(A, B) == \A i \in 1..Rows(A), j \in 1..Cols(A) : Same(A[i][j], B[i][j], CMax(C1, MaxAbs2(Flat(A))))
O(H, diag) == Geo(NumV(scn.v), PmOf(scn.v, scn.k), scn.k, H, diag, GVec(scn.z), GVec(scn.par), scn.p, scn.d, TRUE)
JetsAgree == At1 => LET o == O(HNum(scn.h), FALSE) m == Len(scn.z) IN
   /\ \A a, b \in 1..m : MSame(o.g, Mat(m, m, LAMBDA i, j : o.gj[a][b][i][j][1]))
   /\ MSame(o.loc, Mat(m - 1, m - 1, LAMBDA i, j : o.gl[1][1][i][j][1]))
   /\ MSame(o.rl, MH(o.rl))
Einstein == At1 /\ scn.v.deg = 1 =>
   LET pm == PmOf(scn.v, scn.k) o == O([a \in 1..Len(pm) |-> Multinom(scn.k, pm[a])], TRUE) IN
   MSame(o.rl, MScale(CMul(PI, CInt(scn.v.n - 1)), o.loc))
=============================================================================
