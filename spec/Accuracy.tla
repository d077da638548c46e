------------------------------ MODULE Accuracy ------------------------------
(* Sample formulas for the sigma accuracy and the training loss.              *)
EXTENDS AlgMetric
Mean(s) == CDiv(CSum(s), CInt(Len(s)))
RMean(s) == CRound(Mean(s), 160)
AbsR(x) == IF CLeq(C0, x) THEN x ELSE CNeg(x)
WMean(x, w) == RMean(Vec(Len(x), LAMBDA i : CRound(CMul(x[i], w[i]), 160)))
(* etas (real) and weights of the sample *)
SigmaOf(eta, w) == LET vk == WMean(eta, w) vc == RMean(w) c == CRound(CDiv(vc, vk), 160) IN
   CDiv(WMean(Vec(Len(eta), LAMBDA i : AbsR(CSub(C1, CMul(eta[i], c)))), w), vc)
LossNorm(eta, w) == CRound(CDiv(WMean(eta, w), RMean(w)), 160)
Penalty(x) == IF CLeq(C0, x) THEN C0 ELSE Ln(CAdd(CMul(x, x), C1))
(* variance (homogeneous in the weights) and penalty (independent of them)    *)
LossVar(eta, w) == LET m == LossNorm(eta, w)
                       d(i) == CRound(CSub(CDiv(eta[i], m), C1), 160)
                   IN WMean(Vec(Len(eta), LAMBDA i : CMul(d(i), d(i))), w)
LossPen(eta) == RMean(Vec(Len(eta), LAMBDA i : Penalty(eta[i])))
LossOf(eta, w) == CAdd(LossVar(eta, w), LossPen(eta))
(* derivative of the loss when eta changes by de, the normalisation held fixed *)
LossVarD(eta, de, w) == LET m == LossNorm(eta, w)
                            t(i) == CRound(CMul(CInt(2), CMul(CSub(CDiv(eta[i], m), C1), CDiv(de[i], m))), 160)
                        IN WMean(Vec(Len(eta), t), w)
LossPenD(eta, de) == LET p(i) == IF CLeq(C0, eta[i]) THEN C0 ELSE
                                 CRound(CDiv(CMul(CInt(2), CMul(eta[i], de[i])), CAdd(CMul(eta[i], eta[i]), C1)), 160)
                     IN RMean(Vec(Len(eta), p))
LossD(eta, de, w) == CAdd(LossVarD(eta, de, w), LossPenD(eta, de))
(* eta at one point, real *)
EtaAt(v, pm, k, H, z, par, p) == LET c == Core(v, pm, k, H, FALSE, z, par, p) IN CRound(CRe(EtaOf(c.g, c.G)), 160)
(* eta and its derivative in direction V of H (both Hermitian) *)
EtaJet(v, pm, k, H, V, z, par, p) ==
  LET S == SecDer(pm, z, p, 1)
      A == PsiTab(S, H, FALSE)
      B == PsiTab(S, V, FALSE)
      m == Len(z)
      j(x, y) == JRound(J(A[x][y], B[x][y], C0, C0))
      q == JRound(JInv(j(1, 1)))
      c == CRound(CDiv(C1, PiK(k)), 200)
      g == Mat(m, m, LAMBDA a, b : JRound(JScale(c, JSub(JMul(j(P1(a), P1(b)), q), JMul(JMul(j(P1(a), 1), q), JMul(j(1, P1(b)), q))))))
      G == GradAff(v, z, par, p)
      d == CHOOSE d \in 0..(m - 1) : \A i \in 1..m : CLeq(CAbs2(G[i]), CAbs2(G[d + 1]))
      E == EmbedJac(G, d)
      L == Mat(m - 1, m, LAMBDA r, i : JConst(CRound(E[r][i], 160)))
      R == Mat(m, m - 1, LAMBDA i, r : JConst(CRound(CConj(E[r][i]), 160)))
      e == JScale(CAbs2(G[d + 1]), JDet(JMMul(L, JMMul(g, R))))
  IN <<CRound(CRe(e[1]), 160), CRound(CRe(e[2]), 160)>>
=============================================================================
