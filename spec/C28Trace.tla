------------------------------ MODULE C28Trace ------------------------------
EXTENDS TraceBase, Dual
S0(t) == 0
T2 == Tenm(16)
TR == Tenm(14)
(* along : one or two points z (homogeneous h), moduli, H with directions;    *)
(* fwd and rev : rate of the function's values by forward and reverse mode    *)
Shape(e, s) == IF e.batch THEN <<Len(e.zs)>> \o s ELSE s
JAlong(e) ==
  LET v == e.v
      m == v.n - 1
      nb == Len(e.zs)
      N == Len(e.pm)
      H == MovingM(e.H, e.dH)
      z(b) == Moving(e.zs[b], e.dzs[b])
      h(b) == Moving(e.hs[b], e.dhs[b])
      a(b) == Moving(e.pars[b], e.dpars[b])
      p(b) == e.ps[b]
      d(b) == e.ds[b]
      G(b) == DGrad(v, z(b), a(b), p(b))
      sh == CASE e.fn \in {"poly", "polyaff", "pot", "weight", "kpot", "eta"} -> <<>>
              [] e.fn \in {"grad", "chart", "rechart"} -> <<m>>
              [] e.fn = "hom" -> <<v.n>>
              [] e.fn = "fs" -> <<m, m>>
              [] e.fn = "jac" -> <<m - 1, m>>
              [] e.fn \in {"indfs", "metric"} -> <<m - 1, m - 1>>
              [] e.fn = "sections" -> <<N>>
      rate(b) == CASE e.fn = "poly" -> <<Rate(DPoly(v.T, h(b), a(b)))>>
              [] e.fn = "polyaff" -> <<Rate(DPoly(v.T, DHom(z(b), p(b)), a(b)))>>
              [] e.fn = "grad" -> Rates(G(b))
              [] e.fn = "chart" -> Rates(DAff(h(b), p(b)))
              [] e.fn = "hom" -> Rates(DHom(z(b), p(b)))
              [] e.fn = "rechart" -> Rates(DAff(DHom(z(b), p(b)), e.qs[b]))
              [] e.fn = "pot" -> <<LogRate(DNorm(z(b)))>>
              [] e.fn = "fs" -> RatesM(DFS(z(b)))
              [] e.fn = "jac" -> RatesM(DEmbed(G(b), d(b)))
              [] e.fn = "indfs" -> RatesM(DInduced(DFS(z(b)), G(b), d(b)))
              [] e.fn = "weight" -> <<Rate(DWeight(z(b), G(b), d(b)))>>
              [] e.fn = "sections" -> Rates(DSecs(e.pm, z(b), p(b), 0))
              [] e.fn = "kpot" -> <<CDiv(LogRate(DPsis(e.pm, H, z(b), p(b), 0)[1][1]), PiK(e.k))>>
              [] e.fn = "metric" -> RatesM(DInduced(DMetric(e.pm, e.k, H, z(b), p(b)), G(b), d(b)))
              [] e.fn = "eta" -> <<Rate(DEta(DMetric(e.pm, e.k, H, z(b), p(b)), G(b), d(b)))>>
      ex == FoldLeft(LAMBDA acc, b : acc \o rate(b), <<>>, Range0(nb))
      t2 == IF e.fn \in {"weight", "metric", "eta", "indfs"} THEN TR ELSE T2
  IN FirstBad(<<<<"forward mode", Judged(e.fwd, Shape(e, sh), ex, t2)>>, <<"reverse mode", Judged(e.rev, Shape(e, sh), ex, t2)>>>>)
(* solve : the returned points stay on the variety when z and the moduli move *)
JSolve(e) ==
  LET v == e.v
      m == v.n - 1
      amb == IF e.d < e.p THEN e.d + 1 ELSE e.d + 2
      n == IF e.out.err = "" /\ Len(e.out.shape) = 2 THEN e.out.shape[1] ELSE 0
      pt(i) == SubSeq(e.out.data, (i - 1) * m + 1, i * m)
      h(i) == HomOf(pt(i), e.p)
      dh == Ins(Ins(e.dz, e.d + 1, C0), e.p + 1, C0)
      Q(i) == PEval(PDiff(v.T, amb), h(i), e.par)
      rest(i) == CAdd(Dot(PGrad(v.T, h(i), e.par), dh), SumOver(Len(e.par), LAMBDA j : CMul(PEval(PDiffPar(v.T, j), h(i), e.par), e.dpar[j])))
      simple(i) == CLeq(CMul(Tenm(6), CMax(C1, MaxAbs2(PGrad(v.T, h(i), e.par)))), CAbs2(Q(i)))
      want(i) == Ins(e.dz, e.d + 1, CNeg(CDiv(rest(i), Q(i))))
      got(o, i) == SubSeq(o.data, (i - 1) * m + 1, i * m)
      bad(o) == IF o.err # "" THEN "raised " \o o.err ELSE IF o.shape # e.out.shape THEN "shape"
                ELSE IF \A i \in 1..n : simple(i) => SeqClose(got(o, i), want(i), Tenm(12)) THEN "ok" ELSE "value"
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF Len(e.out.shape) # 2 \/ e.out.shape[2] # m THEN "shape"
     ELSE FirstBad(<<<<"forward mode", bad(e.fwd)>>, <<"reverse mode", bad(e.rev)>>>>)
(* sample : the sampled points stay on the variety when the moduli move *)
JSample(e) ==
  LET v == e.v
      pt(o, i) == SubSeq(o.data, (i - 1) * v.n + 1, i * v.n)
      G(i) == PGrad(v.T, pt(e.out, i), e.par)
      left(i) == Dot(G(i), pt(e.fwd, i))
      right(i) == SumOver(Len(e.par), LAMBDA j : CMul(PEval(PDiffPar(v.T, j), pt(e.out, i), e.par), e.dpar[j]))
      scale(i) == CMax(C1, CMax(CAbs2(right(i)), CMul(MaxAbs2(G(i)), MaxAbs2(pt(e.fwd, i)))))
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.out.shape # <<e.count, v.n>> THEN "shape"
     ELSE IF e.fwd.err # "" THEN "raised " \o e.fwd.err
     ELSE IF e.fwd.shape # e.out.shape THEN "shape of the rate"
     ELSE IF \A i \in 1..e.count : CloseTo(CAdd(left(i), right(i)), C0, scale(i), Tenm(14)) THEN "ok"
     ELSE "points leave the variety"
(* hessian : induced metric and Ricci tensor by repeated mixed derivatives *)
JHessian(e) ==
  LET q == e.v.n - 2
      o == Geo(e.v, e.pm, e.k, e.H, FALSE, e.z, e.par, e.p, e.d, TRUE)
  IN FirstBad(<<<<"metric", Judged(e.loc, <<q, q>>, Flat(o.loc), T2)>>, <<"ricci tensor", Judged(e.ricci, <<q, q>>, Flat(o.rl), TR)>>>>)
JStep(e, s) == [st |-> s, v |-> CASE e.op = "along" -> JAlong(e) [] e.op = "solve" -> JSolve(e) [] e.op = "sample" -> JSample(e) [] e.op = "hessian" -> JHessian(e)]
=============================================================================
