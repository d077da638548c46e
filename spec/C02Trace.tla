------------------------------ MODULE C02Trace ------------------------------
EXTENDS TraceBase, FubiniStudy
S0(t) == 0
(* fs   : n, bshape, zs, zc (flat lists of exact points), metric, exppot, homexppot, prec *)
(* hess : n, which, terms, z, zc, t, out                                                  *)
TolOf(e) == IF e.prec = "single" THEN Tenm(8) ELSE Tenm(18)
JStep(e, s) ==
  LET v == CASE e.op = "fs" ->
         LET m == SProd(e.bshape)
             gs == FoldLeft(LAMBDA a, b : a \o Flat(FSMetric(e.zs[b], e.zc[b])), <<>>, Range0(m))
             ps == [b \in 1..m |-> FSExpPot(e.zs[b], e.zc[b], FALSE)]
             hs == [b \in 1..m |-> FSExpPot(e.zs[b], e.zc[b], TRUE)]
         IN FirstBad(<<<<"metric", Judged(e.metric, e.bshape \o <<e.n, e.n>>, gs, TolOf(e))>>,
                       <<"potential", Judged(e.exppot, e.bshape, ps, TolOf(e))>>,
                       <<"homogeneous potential", Judged(e.homexppot, e.bshape, hs, TolOf(e))>>>>)
    [] e.op = "hess" ->
         LET ex == IF e.which = "fs" THEN FSMetric(e.z, e.zc)
                   ELSE MScale(CInt(e.t), HessPoly(e.terms, e.z, e.zc))
         IN FirstBad(<<<<"mixed hessian", Judged(e.out, <<e.n, e.n>>, Flat(ex), Tenm(18))>>>>)
  IN [v |-> v, st |-> s]
=============================================================================
