------------------------------ MODULE C13Trace ------------------------------
EXTENDS TraceBase, AlgMetric
S0(t) == 0
T2 == Tenm(18)
TR == Tenm(14)
Cat3(n, F(_)) == FoldLeft(LAMBDA acc, i : acc \o F(i), <<>>, Range0(n))
JObj(e) ==
  LET v == e.v
      m == v.n - 1
      q == m - 1
      N == Len(e.pm)
      p == e.patch.data[1]
      z == IF e.hom THEN AffOf(e.x, p) ELSE e.x
      G == GradAff(v, z, e.par, p)
      d == e.dep.data[1]
      o == Geo(v, e.pm, e.k, e.h, e.diag, z, e.par, p, d, TRUE)
      sh(c, r) == IF c \in DOMAIN e.at THEN e.at[c] ELSE [err |-> "missing", shape |-> <<>>, data |-> <<>>]
      jd(name, shape, ex, t2) == <<name, IF name \in DOMAIN e.at THEN Judged(e.at[name], shape, ex, t2) ELSE "missing">>
      T(x, y) == o.tab[x][y]
      s1(a, i) == o.S[P1(i)][a]
      s2(a, i, j) == o.S[P2(m, i, j)][a]
      f1(F(_)) == Vec(m, F)
      f2(F(_, _)) == Cat3(m, LAMBDA i : Vec(m, LAMBDA j : F(i, j)))
      f3(F(_, _, _)) == Cat3(m, LAMBDA i : Cat3(m, LAMBDA j : Vec(m, LAMBDA k : F(i, j, k))))
      f4(F(_, _, _, _)) == Cat3(m, LAMBDA i : Cat3(m, LAMBDA j : Cat3(m, LAMBDA k : Vec(m, LAMBDA x : F(i, j, k, x)))))
      sec1(F(_, _)) == Cat3(N, LAMBDA a : Vec(m, LAMBDA i : F(a, i)))
      sec2(F(_, _, _)) == Cat3(N, LAMBDA a : Cat3(m, LAMBDA i : Vec(m, LAMBDA j : F(a, i, j))))
      loc2(F(_, _)) == Cat3(q, LAMBDA r : Vec(q, LAMBDA s : F(r, s)))
      vc(x) == VConj(x)
  IN IF e.patch.err # "" \/ e.dep.err # "" THEN "raised " \o e.patch.err \o e.dep.err
     ELSE IF e.hom /\ p \notin BestChartsTol(e.x) THEN "patch"
     ELSE IF ~e.hom /\ p # e.p THEN "patch"
     ELSE IF e.d # -1 /\ d # e.d THEN "dependent"
     ELSE IF e.d = -1 /\ d \notin ArgMaxTol(G) THEN "dependent"
     ELSE FirstBad(<<
       jd("s", <<N>>, o.S[1], T2), jd("s_c", <<N>>, vc(o.S[1]), T2),
       jd("s_1", <<N, m>>, sec1(s1), T2), jd("s_1_c", <<N, m>>, vc(sec1(s1)), T2),
       jd("s_2", <<N, m, m>>, sec2(s2), T2), jd("s_2_c", <<N, m, m>>, vc(sec2(s2)), T2),
       jd("psi", <<>>, <<T(1, 1)>>, T2),
       jd("psi_h", <<m>>, f1(LAMBDA i : T(P1(i), 1)), T2), jd("psi_a", <<m>>, f1(LAMBDA i : T(1, P1(i))), T2),
       jd("psi_ha", <<m, m>>, f2(LAMBDA i, j : T(P1(i), P1(j))), T2),
       jd("psi_hh", <<m, m>>, f2(LAMBDA i, j : T(P2(m, i, j), 1)), T2),
       jd("psi_aa", <<m, m>>, f2(LAMBDA i, j : T(1, P2(m, i, j))), T2),
       jd("psi_hha", <<m, m, m>>, f3(LAMBDA i, j, k : T(P2(m, i, j), P1(k))), T2),
       jd("psi_hhaa", <<m, m, m, m>>, f4(LAMBDA i, j, k, x : T(P2(m, i, j), P2(m, k, x))), T2),
       jd("g_proj", <<m, m>>, Flat(o.g), T2),
       jd("g_proj_h", <<m, m, m>>, f3(LAMBDA a, i, j : o.gj[a][1][i][j][2]), TR),
       jd("g_proj_a", <<m, m, m>>, f3(LAMBDA b, i, j : o.gj[1][b][i][j][3]), TR),
       jd("g_proj_ha", <<m, m, m, m>>, f4(LAMBDA a, b, i, j : o.gj[a][b][i][j][4]), TR),
       jd("grad_def", <<m>>, o.G, T2),
       jd("jac", <<q, m>>, Flat(o.E), T2), jd("jac_c", <<q, m>>, vc(Flat(o.E)), T2),
       jd("jac_h", <<q, m, m>>, Cat3(q, LAMBDA r : Cat3(m, LAMBDA i : Vec(m, LAMBDA a : EmbedJacD(o.G, o.Hs, d, a)[r][i]))), T2),
       jd("g_loc", <<q, q>>, Flat(o.loc), T2),
       jd("g_loc_h", <<m, q, q>>, Cat3(m, LAMBDA a : loc2(LAMBDA r, s : o.gl[a][1][r][s][2])), TR),
       jd("g_loc_a", <<m, q, q>>, Cat3(m, LAMBDA b : loc2(LAMBDA r, s : o.gl[1][b][r][s][3])), TR),
       jd("g_loc_ha", <<m, m, q, q>>, Cat3(m, LAMBDA a : Cat3(m, LAMBDA b : loc2(LAMBDA r, s : o.gl[a][b][r][s][4]))), TR),
       jd("g_loc_inv", <<q, q>>, Flat(Inv(o.loc)), TR),
       jd("ricci_proj", <<m, m>>, Flat(o.rp), TR), jd("ricci_loc", <<q, q>>, Flat(o.rl), TR),
       jd("ricci_scalar", <<>>, <<o.scalar>>, TR), jd("eta", <<>>, <<o.eta>>, T2)>>)
JRic(e) ==
  LET v == e.v
      m == SProd(e.b)
      q == v.n - 2
      P(t) == e.patch.data[t]
      Z(t) == IF e.aff THEN Bc(e.xs, t) ELSE AffOf(Bc(e.xs, t), P(t))
      dset(t) == IF e.given THEN {Bc(e.ds, t)} ELSE ArgMaxTol(GradAff(v, Z(t), Bc(e.pars, t), P(t)))
      pset(t) == IF e.aff THEN {Bc(e.ps, t)} ELSE BestChartsTol(Bc(e.xs, t))
      os == Vec(m, LAMBDA t : LET o == Geo(v, e.pm, e.k, Bc(e.hs, t), FALSE, Z(t), Bc(e.pars, t), P(t), e.dep.data[t], TRUE) IN
                              [rl |-> Flat(o.rl), sc |-> o.scalar])
      part(o, t, w) == SubSeq(o.data, (t - 1) * w + 1, t * w)
  IN IF e.r.err # "" THEN "raised " \o e.r.err
     ELSE IF e.scalar.err # "" THEN "scalar raised " \o e.scalar.err
     ELSE IF e.patch.err # "" \/ e.patch.shape # e.b THEN "patch shape"
     ELSE IF e.dep.err # "" \/ e.dep.shape # e.b THEN "dependent shape"
     ELSE IF e.r.shape # e.b \o <<q, q>> \/ e.scalar.shape # e.b THEN "shape"
     ELSE IF \E t \in 1..m : P(t) \notin pset(t) THEN "patch"
     ELSE IF \E t \in 1..m : e.dep.data[t] \notin dset(t) THEN "dependent"
     ELSE IF \E t \in 1..m : ~SeqClose(part(e.r, t, q * q), os[t].rl, TR) THEN "ricci tensor"
     ELSE IF \E t \in 1..m : ~SeqClose(part(e.scalar, t, 1), <<os[t].sc>>, TR) THEN "ricci scalar"
     ELSE "ok"
JStep(e, s) == [st |-> s, v |-> IF e.op = "object" THEN JObj(e) ELSE JRic(e)]
=============================================================================
