------------------------------ MODULE C09Trace ------------------------------
EXTENDS TraceBase, Variety
S0(t) == 0
T2 == Tenm(14)
(* relative comparison of every entry *)
Rel(out, shape, ex) == IF out.err # "" THEN "raised " \o out.err ELSE IF out.shape # shape THEN "shape"
   ELSE IF \A i \in 1..Len(ex) : CloseTo(out.data[i], ex[i], CAbs2(ex[i]), T2) THEN "ok" ELSE "value"
Best(v, z, par, p) == LET G == GradAff(v, z, par, p) IN CHOOSE d \in ArgMaxTol(G) : TRUE
JBatch(e) ==
  LET v == e.v
      m == SProd(e.bshape)
      m3 == SProd(e.bs3)
      z(t) == Bc(e.zs, t)
      par(t) == Bc(e.pars, t)
      p(t) == Bc(e.ps, t)
      d(t) == Bc(e.ds, t)
      dv == Vec(m, LAMBDA t : DVol(v, z(t), par(t), p(t), d(t), e.vol))
      df == Vec(m, LAMBDA t : DFs(v, z(t), par(t), p(t), d(t), e.vol))
      w == Vec(m, LAMBDA t : CDiv(dv[t], df[t]))
      w3 == Vec(m3, LAMBDA t : Weight(v, z(t), par(t), p(t), Best(v, z(t), par(t), p(t)), e.vol))
      sep(o1, o2, mm) == IF o1.err # "" THEN o1.err ELSE IF o2.err # "" THEN o2.err
                         ELSE IF \A t \in 1..mm : CloseTo(CDiv(o1.data[t], o2.data[t]), w3[t], CAbs2(w3[t]), T2) THEN "ok" ELSE "value"
  IN FirstBad(<<<<"weight, dependent given", Rel(e.w, e.bshape, w)>>,
        <<"weight, dependent chosen", Rel(e.w0, e.bs3, w3)>>,
        <<"holomorphic volume density", Rel(e.dv, e.bshape, dv)>>,
        <<"metric volume density", Rel(e.df, e.bshape, df)>>,
        <<"quotient of the separate densities", sep(e.dv0, e.df0, m3)>>>>)
JCoord(e) ==
  LET v == e.v
      w(i) == Weight(v, e.obs[i].z, e.par, e.obs[i].p, e.obs[i].d, C1)
      n == Len(e.obs)
  IN IF e.err # "" THEN "raised " \o e.err
     ELSE FirstBad(<<Clause("weight in every chart and dependent coordinate",
            \A i \in 1..n : CloseTo(e.obs[i].w, w(i), CAbs2(w(i)), T2)),
          Clause("weight independent of coordinates",
            \A i \in 2..n : CloseTo(e.obs[i].w, e.obs[1].w, CAbs2(e.obs[1].w), Tenm(12)))>>)
JStep(e, s) == [st |-> s, v |-> IF e.op = "batch" THEN JBatch(e) ELSE JCoord(e)]
=============================================================================
