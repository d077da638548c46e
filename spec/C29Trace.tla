------------------------------ MODULE C29Trace ------------------------------
EXTENDS TraceBase, MixedSecs
S0(t) == 0
T2 == Tenm(16)
TR == Tenm(14)
JGeo(e) ==
  LET v == e.v
      q == v.n - 2
      E == EffH(IF e.other THEN e.B ELSE e.A, e.H)
      o(b) == Geo(v, e.pm, e.k, E, FALSE, e.zs[b], e.pars[b], e.ps[b], e.ds[b], TRUE)
      O == Vec(Len(e.zs), o)
      cat(F(_)) == FoldLeft(LAMBDA acc, b : acc \o F(b), <<>>, Range0(Len(e.zs)))
      sh(s) == IF e.batch THEN <<Len(e.zs)>> \o s ELSE s
  IN FirstBad(<<
     <<"potential", Judged(e.expk, sh(<<>>), cat(LAMBDA b : <<O[b].psi>>), T2)>>,
     <<"metric", Judged(e.metric, sh(<<q, q>>), cat(LAMBDA b : Flat(O[b].loc)), TR)>>,
     <<"eta", Judged(e.eta, sh(<<>>), cat(LAMBDA b : <<O[b].eta>>), TR)>>,
     <<"ricci tensor", Judged(e.ricci, sh(<<q, q>>), cat(LAMBDA b : Flat(O[b].rl)), TR)>>,
     <<"ricci scalar", Judged(e.scalar, sh(<<>>), cat(LAMBDA b : <<O[b].scalar>>), TR)>>>>)
Mtx(data, N) == [i \in 1..N |-> SubSeq(data, (i - 1) * N + 1, i * N)]
JDon(e) ==
  LET n == Len(e.A)
      smp == FoldLeft(LAMBDA acc, b : acc \o b, <<>>, e.batches)
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.out.shape # <<n, n>> THEN "shape"
     ELSE IF \E i \in 1..Len(e.out.data) : e.out.data[i] = NaN THEN "non-finite value"
     ELSE IF Len(e.batches) # e.nb \/ \E b \in 1..e.nb : Len(e.batches[b]) # e.size THEN "batches"
     ELSE IF IsInvT(Mtx(e.out.data, n), MixT(e.A, e.pm, e.H, smp, e.vol), Tenm(18)) THEN "ok" ELSE "not the inverse transpose of the weighted average"
JStep(e, s) == [st |-> s, v |-> IF e.op = "geo" THEN JGeo(e) ELSE JDon(e)]
=============================================================================
