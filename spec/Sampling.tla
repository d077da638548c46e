------------------------------ MODULE Sampling ------------------------------
(* Regions and exact moments of the random samplers.                          *)
EXTENDS Charts
M(mean, var) == [mean |-> mean, var |-> var]
Q(a, b) == CFrac(a, 0, b)
(* moments of a uniform variable on [a, b]: E u^k *)
RECURSIVE GSum(_, _, _)
GSum(a, b, k) == CSum([i \in 1..(k + 1) |-> CMul(CPow(a, i - 1), CPow(b, k + 1 - i))])
UMom(a, b, k) == CDiv(GSum(a, b, k), CInt(k + 1))
(* each table: name -> mean and variance of one sample of the statistic *)
CompMoments == [re |-> M(C0, Q(1, 3)), im |-> M(C0, Q(1, 3)), re2 |-> M(Q(1, 3), Q(4, 45)), im2 |-> M(Q(1, 3), Q(4, 45)),
                reim |-> M(C0, Q(1, 9)), lag |-> M(C0, Q(1, 9)), lagx |-> M(C0, Q(1, 9)), col |-> M(C0, Q(1, 9)),
                re4 |-> M(Q(1, 5), Q(16, 225))]
(* squared radius uniform on [a, b], angle uniform *)
DiskMoments(a, b) == LET E(k) == UMom(a, b, k) half(x) == CDiv(x, CInt(2)) IN
  [u |-> M(E(1), CSub(E(2), CMul(E(1), E(1)))), u2 |-> M(E(2), CSub(E(4), CMul(E(2), E(2)))),
   re |-> M(C0, half(E(1))), im |-> M(C0, half(E(1))), dd |-> M(C0, half(E(2))), reim |-> M(C0, CDiv(E(2), CInt(8))),
   ure |-> M(C0, half(E(3))), lag |-> M(C0, half(CMul(E(1), E(1)))), lagi |-> M(C0, half(CMul(E(1), E(1)))),
   col |-> M(C0, half(CMul(E(1), E(1))))]
(* unit sphere of R^n *)
SphereMoments(n) == LET d2 == n * (n + 2) d4 == d2 * (n + 4) * (n + 6) IN
  [x |-> M(C0, Q(1, n)), x2 |-> M(Q(1, n), CSub(Q(3, d2), Q(1, n * n))), x4 |-> M(Q(3, d2), CSub(Q(105, d4), CMul(Q(3, d2), Q(3, d2)))),
   xl2 |-> M(Q(1, n), CSub(Q(3, d2), Q(1, n * n))), xy |-> M(C0, Q(1, d2)), x3y |-> M(C0, Q(15, d4)), lag |-> M(C0, Q(1, n))]
(* unit sphere of C^n; r4 = E|z|^4 *)
CSphereMoments(n) == LET d2 == n * (n + 1) d4 == d2 * (n + 2) * (n + 3) IN
  [u |-> M(Q(1, n), CSub(Q(2, d2), Q(1, n * n))), ul |-> M(Q(1, n), CSub(Q(2, d2), Q(1, n * n))),
   u2 |-> M(Q(2, d2), CSub(Q(24, d4), Q(4, d2 * d2))), re |-> M(C0, Q(1, 2 * n)), im |-> M(C0, Q(1, 2 * n)),
   zz |-> M(C0, Q(1, d2)), zzi |-> M(C0, Q(1, d2)),
   zwc |-> M(C0, Q(1, 2 * d2)), zwci |-> M(C0, Q(1, 2 * d2)), zw |-> M(C0, Q(1, 2 * d2)),
   uv |-> M(Q(1, d2), CSub(Q(4, d4), Q(1, d2 * d2))),
   lag |-> M(Q(1, n), CSub(Q(2, d2), Q(1, n * n)))]
(* overlap of two patches of size P: log radius of the shared coordinate      *)
(* uniform on [-ln P, ln P], other squared radii uniform up to the largest    *)
(* value allowed in both charts; the same in either chart                     *)
OverlapMoments(P) == LET L2 == LET t == Ln(P) IN CRound(CMul(t, t), 80) IN
  [l |-> M(C0, CDiv(L2, CInt(3))), l2 |-> M(CDiv(L2, CInt(3)), CMul(CMul(L2, L2), Q(4, 45))),
   q |-> M(Q(1, 2), Q(1, 12)), q2 |-> M(Q(1, 3), Q(4, 45)), ql |-> M(Q(1, 2), Q(1, 12)),
   lq |-> M(C0, CDiv(L2, CInt(36))), qq |-> M(C0, Q(1, 144)),
   cth |-> M(C0, Q(1, 2)), sth |-> M(C0, Q(1, 2)), cph |-> M(C0, Q(1, 2)), cdf |-> M(C0, Q(1, 2)), lag |-> M(C0, Q(1, 2))]
(* six standard deviations of the mean of N samples *)
Within(obs, m, N) == IsNum(obs) /\ CLeq(CAbs2(CSub(obs, m.mean)), CAdd(CDiv(CMul(CInt(36), m.var), CInt(N)), Tenm(20)))
(* regions *)
InSquare(z) == CLeq(CAbs2(CRe(z)), C1) /\ CLeq(CAbs2(CIm(z)), C1)
Eps == Tenm(12)
InAnnulus(z, lo, hi) == LET u == CAbs2(z) IN CLeq(CMul(CMul(lo, lo), CSub(C1, Eps)), u) /\ CLeq(u, CMul(CMul(hi, hi), CAdd(C1, Eps)))
OnSphere(v) == CLeq(CAbs2(CSub(Norm2(v), C1)), Eps)
InPatch(z, P) == \A i \in 1..Len(z) : CLeq(CAbs2(z[i]), CMul(CMul(P, P), CAdd(C1, Eps)))
=============================================================================
