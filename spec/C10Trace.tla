------------------------------ MODULE C10Trace ------------------------------
EXTENDS TraceBase, Variety
S0(t) == 0
(* geo: v, n, bshape, and items zs, zc, pars, ps, ds, g broadcast to bshape;  *)
(* bs3: batch without the dependent argument                                  *)
T2 == Tenm(18)
Cat(m, F(_)) == FoldLeft(LAMBDA a, t : a \o F(t), <<>>, Range0(m))
DepSet(o, shape, m, G(_)) == IF o.err # "" THEN "raised " \o o.err ELSE IF o.shape # shape THEN "shape"
   ELSE IF \A t \in 1..m : o.data[t] \in ArgMaxTol(G(t)) THEN "ok" ELSE "not a largest gradient entry"
JStep(e, s) ==
  LET v == e.v
      k == v.n - 1
      m == SProd(e.bshape)
      m3 == SProd(e.bs3)
      z(t) == Bc(e.zs, t)
      zc(t) == Bc(e.zc, t)
      par(t) == Bc(e.pars, t)
      p(t) == Bc(e.ps, t)
      d(t) == Bc(e.ds, t)
      g(t) == Bc(e.g, t)
      Gs == Vec(IF m > m3 THEN m ELSE m3, LAMBDA t : GradAff(v, z(t), par(t), p(t)))
      G(t) == Gs[t]
      Gcs == Vec(m, LAMBDA t : GradAffC(v, zc(t), par(t), p(t)))
      fs(t) == FSMetric(z(t), VConj(z(t)))
      jl == <<k - 1, k>>
      gl == <<k - 1, k - 1>>
      dn(o, t) == o.data[t]
      auto(o, sh, dep, F(_, _)) == IF dep.err # "" THEN "raised " \o dep.err ELSE
                 Judged(o, e.bs3 \o sh, Cat(m3, LAMBDA t : Flat(F(t, dep.data[t]))), T2)
  IN [st |-> s, v |-> FirstBad(<<
     <<"gradient", Judged(e.grad, e.bs3 \o <<k>>, Cat(m3, G), T2)>>,
     <<"homogeneous gradient", Judged(e.gradh, e.bsh \o <<v.n>>, Cat(SProd(e.bsh), LAMBDA t : GradHom(v, Bc(e.hs, t), par(t))), T2)>>,
     <<"best dependent coordinate", DepSet(e.best, e.bs3, m3, G)>>,
     <<"jacobian", Judged(e.jac, e.bshape \o jl, Cat(m, LAMBDA t : Flat(EmbedJac(G(t), d(t)))), T2)>>,
     <<"dependent reported with the jacobian", DepSet(e.jacd, e.bs3, m3, G)>>,
     <<"jacobian for the reported dependent", auto(e.jac0, jl, e.jacd, LAMBDA t, q : EmbedJac(G(t), q))>>,
     <<"jacobian function", Judged(e.fjac, e.bshape \o jl, Cat(m, LAMBDA t : Flat(EmbedJac(G(t), d(t)))), T2)>>,
     <<"induced metric", Judged(e.ind, e.bshape \o gl, Cat(m, LAMBDA t : Flat(InducedR(g(t), G(t), d(t)))), T2)>>,
     <<"induced metric, conjugates given", Judged(e.indc, e.bshape \o gl, Cat(m, LAMBDA t : Flat(Induced(g(t), G(t), Gcs[t], d(t)))), T2)>>,
     <<"dependent reported with the metric", DepSet(e.indd, e.bs3, m3, G)>>,
     <<"induced metric for the reported dependent", auto(e.ind0, gl, e.indd, LAMBDA t, q : InducedR(g(t), G(t), q))>>,
     <<"induced metric function", Judged(e.find, e.bshape \o gl, Cat(m, LAMBDA t : Flat(InducedR(g(t), G(t), d(t)))), T2)>>,
     <<"induced metric function, conjugates given", Judged(e.findc, e.bshape \o gl, Cat(m, LAMBDA t : Flat(Induced(g(t), G(t), Gcs[t], d(t)))), T2)>>,
     <<"induced FS metric", Judged(e.fs, e.bshape \o gl, Cat(m, LAMBDA t : Flat(InducedR(fs(t), G(t), d(t)))), T2)>>,
     <<"induced FS metric, conjugates given", Judged(e.fsc, e.bshape \o gl,
            Cat(m, LAMBDA t : Flat(Induced(FSMetric(z(t), zc(t)), G(t), Gcs[t], d(t)))), T2)>>,
     <<"dependent reported with the FS metric", DepSet(e.fsd, e.bs3, m3, G)>>,
     <<"induced FS metric for the reported dependent", auto(e.fs0, gl, e.fsd, LAMBDA t, q : InducedR(fs(t), G(t), q))>>
     >>)]
=============================================================================
