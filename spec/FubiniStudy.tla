---------------------------- MODULE FubiniStudy ----------------------------
(* Fubini-Study potential and metric in affine coordinates; z and zc are      *)
(* independent (zc is the conjugate of z at real points).                     *)
EXTENDS Jet, Charts
FSNorm(z, zc) == CAdd(C1, Dot(z, zc))
FSMetric(z, zc) == LET nn == FSNorm(z, zc) n2 == CMul(nn, nn) IN
  Mat(Len(z), Len(z), LAMBDA i, j :
      CDiv(CSub(IF i = j THEN nn ELSE C0, CMul(zc[i], z[j])), n2))
(* the same by definition: mixed derivative of log(1 + z.zc) *)
FSNormJet(z, zc, i, j) == LET zj == HolJet(z, i) cj == AntJet(zc, j) IN
  JAdd(JOne, JSumOver(Len(z), LAMBDA k : JMul(zj[k], cj[k])))
FSMetricDef(z, zc) == Mat(Len(z), Len(z), LAMBDA i, j : LogMixed(FSNormJet(z, zc, i, j)))
(* exponential of the potential *)
FSExpPot(z, zc, hom) == IF hom THEN Dot(z, zc) ELSE FSNorm(z, zc)
(* Jacobian d w_r / d z_i of the chart change p -> q at z (exact) *)
ChartJac(z, p, q) ==
  LET n == Len(z)
      hom(i) == HomOf(Vec(n, LAMBDA k : J(z[k], IF k = i THEN C1 ELSE C0, C0, C0)), p)
      homj(i) == LET h == hom(i) IN [h EXCEPT ![p + 1] = JOne]
      w(i) == LET h == homj(i) IN Vec(n, LAMBDA r : JDiv(h[IF r <= q THEN r ELSE r + 1], h[q + 1]))
  IN Mat(n, n, LAMBDA r, i : w(i)[r][2])
(* metric tensors transform as g_ij = W^r_i  gq_rs  conj(W^s_j) *)
PullBack(W, g) == MMul(MT(W), MMul(g, MConj(W)))
FSCovariant(z, p, q) == FSMetric(z, VConj(z)) =
   PullBack(ChartJac(z, p, q), LET w == Rechart(z, p, q) IN FSMetric(w, VConj(w)))
(* mixed Hessian of sum_k c_k z^a_k zc^b_k *)
MonDer(v, a, i) == IF a[i] = 0 THEN C0
   ELSE CMul(CInt(a[i]), CProd(Vec(Len(v), LAMBDA k : CPow(v[k], IF k = i THEN a[k] - 1 ELSE a[k]))))
HessPoly(terms, z, zc) == Mat(Len(z), Len(zc), LAMBDA i, j :
   SumOver(Len(terms), LAMBDA t : CMul(terms[t].c, CMul(MonDer(z, terms[t].a, i), MonDer(zc, terms[t].b, j)))))
=============================================================================
