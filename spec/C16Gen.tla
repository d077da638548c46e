------------------------------- MODULE C16Gen -------------------------------
EXTENDS AlgLib, Accuracy
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == SubSeq(AllVars, 1, 13)
(* batch layouts of (parameters, matrices) *)
SigmaScn(vi, k, r) == LET v == Vs[vi] q == <<vi, k, r, 91>> N == BasisSize(v, k, FALSE) IN
   [op |-> "sigma", v |-> v, lay |-> r % 4, k |-> k, N |-> N, pars |-> [b \in 1..3 |-> RndPar(v.np, q \o <<b, 3>>)],
    hs |-> [b \in 1..3 |-> RndH(N, q \o <<b, 9>>)], key |-> RndI(q \o <<1>>, 0, 30000), count |-> RndI(q \o <<2>>, 1, Pick2(9, 14)),
    indef |-> (r + vi) % 3 = 0, scale |-> <<RndI(q \o <<4>>, 1, 60), 0, 8>>, jit |-> (r + vi) % 2 = 0]
LossScn(vi, k, r) == LET v == Vs[vi] q == <<vi, k, r, 93>> N == BasisSize(v, k, FALSE) n == 3 + (r % 3) IN
   [op |-> "loss", v |-> v, lay |-> 8, k |-> k, N |-> N, indef |-> r % 3 # 0, count |-> n, jit |-> r % 2 = 0,
    wexp |-> <<0, -150, 150, 0, -60>>[1 + ((vi + 2 * k + r) % 5)],
    items |-> [b \in 1..2 |-> [par |-> RndPar(v.np, q \o <<b, 3>>), h |-> RndH(N, q \o <<b, 9>>), dir |-> RndH(N, q \o <<b, 10>>),
       zs |-> [i \in 1..n |-> RndPointZ(v.n - 1, q \o <<b, i>>)], ps |-> [i \in 1..n |-> RndI(q \o <<b, i, 5>>, 0, v.n - 1)],
       ws |-> [i \in 1..n |-> <<RndI(q \o <<b, i, 6>>, 1, 30), 0, 8>>]]]]
(* the matrix of a loss item: for indefinite ones the diagonal part is        *)
(* negative at odd positions                                                  *)
LH(x, indef) == LET M0 == HNum(x.h) IN IF ~indef THEN M0 ELSE
   Mat(Len(M0), Len(M0), LAMBDA i, j : IF i = j /\ i % 2 = 1 THEN CSub(M0[i][j], CMul(CInt(2), GNum(x.h.d[i]))) ELSE M0[i][j])
Etas(s, x) == LET v == NumV(s.v) pm == PmOf(s.v, s.k) H == LH(x, s.indef) IN
   Vec(s.count, LAMBDA i : EtaAt(v, pm, s.k, H, GVec(x.zs[i]), GVec(x.par), x.ps[i]))
Ws(s, x) == Vec(s.count, LAMBDA i : GNum(x.ws[i]))
(* the indefinite matrix depends on the order of sections, so conditioning is *)
(* judged on the recorded data; here only positive ones are filtered          *)
GoodLoss(s) == s.indef \/ \A b \in 1..2 : LET e == Etas(s, s.items[b]) w == Ws(s, s.items[b])
     m == WMean(e, w) a == WMean(Vec(s.count, LAMBDA i : AbsR(e[i])), w) IN CLeq(a, CMul(CInt(10), AbsR(m)))
Init == ph = "pick" /\
   \/ \E vi \in 1..Len(Vs), k \in 1..2, r \in 1..Pick2(3, 8) : BasisSize(Vs[vi], k, FALSE) <= Pick2(10, 15)
         /\ (Thorough \/ k = 1 \/ r = 1 + (vi % 3)) /\ scn = <<1, vi, k, r>>
   \/ \E vi \in 1..Len(Vs), k \in 1..2, r \in 1..Pick2(3, 10) : BasisSize(Vs[vi], k, FALSE) <= Pick2(10, 15)
         /\ (Thorough \/ k = 1 \/ r = 1 + (vi % 3)) /\ scn = <<2, vi, k, r>>
Next == ph = "pick" /\ ph' = "emit" /\ IF scn[1] = 1 THEN scn' = SigmaScn(scn[2], scn[3], scn[4])
                                      ELSE scn' = LossScn(scn[2], scn[3], scn[4]) /\ GoodLoss(scn')
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the formulas are non-negative and vanish for constant eta; the     *)
(* derivative of eta in the direction of H itself vanishes; eta is unchanged  *)
(* by scaling H                                                               *)
Same(a, b) == CLeq(CAbs2(CSub(a, b)), CMul(Tenm(40), CMax(C1, CAbs2(a))))
Laws == ph = "emit" /\ scn.op = "loss" /\ ~scn.indef /\ scn.N <= 6 =>
   LET x == scn.items[1] e == Etas(scn, x) w == Ws(scn, x) v == NumV(scn.v) pm == PmOf(scn.v, scn.k) H == HNum(x.h)
       ej == EtaJet(v, pm, scn.k, H, H, GVec(x.zs[1]), GVec(x.par), x.ps[1])
       one == Vec(scn.count, LAMBDA i : CInt(3))
   IN /\ CLeq(C0, SigmaOf(e, w)) /\ CLeq(C0, LossOf(e, w))
      /\ Same(SigmaOf(one, w), C0) /\ Same(LossOf(one, w), C0)
      /\ Same(LossVar(e, Vec(scn.count, LAMBDA i : CMul(CInt(5), w[i]))), CMul(CInt(5), LossVar(e, w)))
      /\ Same(ej[1], e[1]) /\ Same(ej[2], C0)
      /\ Same(EtaAt(v, pm, scn.k, MScale(CInt(5), H), GVec(x.zs[1]), GVec(x.par), x.ps[1]), e[1])
      /\ Same(SigmaOf(Vec(scn.count, LAMBDA i : CMul(CInt(7), e[i])), w), SigmaOf(e, w))
=============================================================================
