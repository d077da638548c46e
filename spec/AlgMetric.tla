----------------------------- MODULE AlgMetric -----------------------------
(* The algebraic ansatz K = log (s H conj s) over pi k: potential, metric on the     *)
(* variety, eta ratio, Ricci curvature.  Sections are monomials given by a    *)
(* power matrix; H is a matrix or, for diagonal H, a vector; z are affine     *)
(* coordinates of patch p.                                                    *)
EXTENDS Variety
(* sorted index lists of length at most two, and their positions *)
P1(i) == 1 + i
P2(m, i, j) == 1 + m + (IF i <= j THEN (j * (j - 1)) \div 2 + i ELSE (i * (i - 1)) \div 2 + j)
MIdx(m) == <<<<>>>> \o [i \in 1..m |-> <<i>>] \o
           FoldLeft(LAMBDA acc, j : acc \o [i \in 1..j |-> <<i, j>>], <<>>, Range0(m))
DMon(z, e, I) ==
  LET step(a, i) == [c |-> a.c * a.e[i], e |-> [a.e EXCEPT ![i] = IF @ = 0 THEN 0 ELSE @ - 1]]
      r == FoldLeft(step, [c |-> 1, e |-> e], I)
  IN IF r.c = 0 THEN C0 ELSE CMul(CInt(r.c), Mon(z, r.e))
(* derivatives of the sections: row per index list, column per section *)
SecDer(pm, z, p, ord) == LET I == SelectSeq(MIdx(Len(z)), LAMBDA x : Len(x) <= ord) IN
   Mat(Len(I), Len(pm), LAMBDA x, a : DMon(z, Drop(pm[a], p + 1), I[x]))
HMul(H, diag, v) == IF diag THEN Vec(Len(v), LAMBDA a : CMul(H[a], v[a])) ELSE MVec(H, v)
(* contractions d_I s H conj(d_J s) *)
PsiTab(S, H, diag) == LET W == Vec(Len(S), LAMBDA y : HMul(H, diag, VConj(S[y]))) IN
   Mat(Len(S), Len(S), LAMBDA x, y : Dot(S[x], W[y]))
Pos(m, i) == IF i = 0 THEN 1 ELSE P1(i)
PosD(m, i, a) == IF i = 0 THEN P1(a) ELSE P2(m, i, a)
(* jet of d_i conj(d_j) psi (0: not differentiated) in directions a, b *)
PsiJet(tab, m, i, j, a, b) == J(tab[Pos(m, i)][Pos(m, j)], tab[PosD(m, i, a)][Pos(m, j)],
                                tab[Pos(m, i)][PosD(m, j, b)], tab[PosD(m, i, a)][PosD(m, j, b)])
PiK(k) == CRound(CMul(PI, CInt(k)), 110)
JRound(x) == J(CRound(x[1], 200), CRound(x[2], 200), CRound(x[3], 200), CRound(x[4], 200))
(* metric of the ambient affine space from first-order contractions *)
MetricOf(tab, m, k) == LET q == tab[1][1] q2 == CMul(q, q) IN
   Mat(m, m, LAMBDA i, j : CRound(CDiv(CSub(CMul(tab[P1(i)][P1(j)], q), CMul(tab[P1(i)][1], tab[1][P1(j)])), CMul(q2, PiK(k))), 200))
(* the same with its derivatives in directions a, b *)
MetricJet(tab, m, k, a, b) ==
  LET q == JRound(JDiv(JOne, PsiJet(tab, m, 0, 0, a, b)))
      L(i) == JRound(JMul(PsiJet(tab, m, i, 0, a, b), q))
      R(j) == JRound(JMul(PsiJet(tab, m, 0, j, a, b), q))
      Ls == Vec(m, L)
      Rs == Vec(m, R)
      c == CRound(CDiv(C1, PiK(k)), 200)
  IN Mat(m, m, LAMBDA i, j : JRound(JScale(c, JSub(JMul(PsiJet(tab, m, i, j, a, b), q), JMul(Ls[i], Rs[j])))))
(* gradient of Q and its derivatives in patch p *)
Hess(v, z, par, p) == LET h == HomOf(z, p) m == Len(z) amb(i) == IF i <= p THEN i ELSE i + 1 IN
   Mat(m, m, LAMBDA i, a : PEval(PDiff(PDiff(v.T, amb(i)), amb(a)), h, par))
(* d_a of the embedding Jacobian, for dependent coordinate d *)
EmbedJacD(G, Hs, d, a) == LET m == Len(G) amb(k) == IF k <= d THEN k ELSE k + 1 g == G[d + 1] IN
   Mat(m - 1, m, LAMBDA r, i : IF i # d + 1 THEN C0 ELSE
       CDiv(CSub(CMul(G[amb(r)], Hs[d + 1][a]), CMul(Hs[amb(r)][a], g)), CMul(g, g)))
JMMul(A, B) == Mat(Rows(A), Cols(B), LAMBDA i, j : JSumOver(Cols(A), LAMBDA k : JMul(A[i][k], B[k][j])))
LocalJet(gj, G, Hs, d, a, b) ==
  LET E == EmbedJac(G, d) Ea == EmbedJacD(G, Hs, d, a) Eb == EmbedJacD(G, Hs, d, b)
      L == Mat(Rows(E), Cols(E), LAMBDA r, i : JRound(J(E[r][i], Ea[r][i], C0, C0)))
      R == Mat(Cols(E), Rows(E), LAMBDA i, r : JRound(J(CConj(E[r][i]), C0, CConj(Eb[r][i]), C0)))
  IN JMMul(L, JMMul(gj, R))
(* everything at one point.  Curv: with curvature *)
Geo(v, pm, k, H, diag, z, par, p, d, curv) ==
  LET m == Len(z)
      S == SecDer(pm, z, p, IF curv THEN 2 ELSE 1)
      tab == PsiTab(S, H, diag)
      G == GradAff(v, z, par, p)
      g == MetricOf(tab, m, k)
      Hs == IF curv THEN Hess(v, z, par, p) ELSE <<>>
      gj == IF curv THEN Mat(m, m, LAMBDA a, b : MetricJet(tab, m, k, a, b)) ELSE <<>>
      gl == Mat(IF curv THEN m ELSE 0, m, LAMBDA a, b : LocalJet(gj[a][b], G, Hs, d, a, b))
      loc == InducedR(g, G, d)
      rp == Mat(IF curv THEN m ELSE 0, m, LAMBDA a, b : CNeg(LogMixed(JRound(JDet(gl[a][b])))))
      E == EmbedJac(G, d)
      rl == IF curv THEN MMul(E, MMul(rp, MH(E))) ELSE <<>>
  IN [S |-> S, tab |-> tab, G |-> G, g |-> g, Hs |-> Hs, gj |-> gj, gl |-> gl, loc |-> loc, E |-> E, rp |-> rp, rl |-> rl,
      psi |-> tab[1][1], eta |-> CMul(Det(loc), CAbs2(G[d + 1])),
      scalar |-> IF curv THEN Trace(MMul(rl, Inv(loc))) ELSE C0]
(* potential and metric only, before a dependent coordinate is chosen *)
Core(v, pm, k, H, diag, z, par, p) == LET tab == PsiTab(SecDer(pm, z, p, 1), H, diag) IN
   [psi |-> tab[1][1], g |-> MetricOf(tab, Len(z), k), G |-> GradAff(v, z, par, p)]
CoreLoc(c, d) == InducedR(c.g, c.G, d)
CoreEta(c, d) == CMul(Det(CoreLoc(c, d)), CAbs2(c.G[d + 1]))
(* eta by the cofactor formula, without choosing a dependent coordinate *)
EtaOf(g, G) == CMul(Det(g), Dot(VConj(G), MVec(Inv(g), G)))
=============================================================================
