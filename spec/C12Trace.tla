------------------------------ MODULE C12Trace ------------------------------
EXTENDS TraceBase, AlgMetric
S0(t) == 0
T2 == Tenm(18)
(* shared: v, k, pm, items zs, pars, ps, ds, hs, homs; batch shapes bs (all),  *)
(* bn (without dependents), bh (homogeneous), bhd (homogeneous, dependents)    *)
PerItem(o, b, sh, Fit(_), F(_)) ==
  LET m == SProd(b) w == SProd(sh) IN
  IF o.err # "" THEN "raised " \o o.err ELSE IF o.shape # b \o sh THEN "shape"
  ELSE IF \E t \in 1..m : Fit(t) /\ \E i \in ((t - 1) * w + 1)..(t * w) : o.data[i] = NaN THEN "non-finite value"
  ELSE IF \A t \in 1..m : Fit(t) => SeqClose(SubSeq(o.data, (t - 1) * w + 1, t * w), F(t), T2) THEN "ok" ELSE "value"
IntIn(o, b, S(_)) == IF o.err # "" THEN "raised " \o o.err ELSE IF o.shape # b THEN "shape"
  ELSE IF \A t \in 1..SProd(b) : o.data[t] \in S(t) THEN "ok" ELSE "value"
Conditioned(c, H, pm, z, p, d) ==
  LET s == SecDer(pm, z, p, 0)[1]
      big == FoldLeft(LAMBDA a, i : CAdd(a, CMul(IF CLeq(C0, H[i][i]) THEN H[i][i] ELSE CNeg(H[i][i]), CAbs2(s[i]))), C0, Range0(Len(s)))
      loc == CoreLoc(c, d)
      rows == FoldLeft(LAMBDA a, i : CMul(a, Norm2(loc[i])), C1, Range0(Len(loc)))
  IN CLeq(big, CMul(CInt(20), CRe(c.psi))) /\ CLeq(rows, CMul(CInt(1000000), CAbs2(Det(loc))))
(* one call: aff (patches given) or homogeneous; dep given or chosen *)
JCall(e) ==
  LET v == e.v
      m == SProd(e.b)
      lo == v.n - 2
      patchOk == IF e.aff THEN "ok" ELSE IntIn(e.patch, e.b, LAMBDA t : BestChartsTol(Bc(e.xs, t)))
      P(t) == IF e.aff THEN Bc(e.ps, t) ELSE e.patch.data[t]
      Z(t) == IF e.aff THEN Bc(e.xs, t) ELSE AffOf(Bc(e.xs, t), P(t))
      cs == Vec(m, LAMBDA t : Core(v, e.pm, e.k, Bc(e.hs, t), FALSE, Z(t), Bc(e.pars, t), P(t)))
      depOk == IF e.dep THEN "ok" ELSE IntIn(e.deps, e.b, LAMBDA t : ArgMaxTol(cs[t].G))
      D(t) == IF e.dep THEN Bc(e.ds, t) ELSE e.deps.data[t]
      (* indefinite H: judged where psi is positive and neither it nor the     *)
      (* determinant is lost in cancellation                                    *)
      fits == Vec(m, LAMBDA t : ~e.indef \/ Conditioned(cs[t], Bc(e.hs, t), e.pm, Z(t), P(t), D(t)))
      Fit(t) == fits[t]
      rep(o, F(_)) == IF o.err # "" THEN "raised " \o o.err ELSE IF o.shape # e.b THEN "shape"
                      ELSE IF \A t \in 1..m : o.data[t] = F(t) THEN "ok" ELSE "value"
  IN IF patchOk # "ok" THEN "reported patch " \o patchOk
     ELSE IF depOk # "ok" THEN "reported dependent " \o depOk
     ELSE FirstBad(<<
       <<"potential", PerItem(e.expk, e.b, <<>>, Fit, LAMBDA t : <<cs[t].psi>>)>>,
       <<"imaginary part of the potential", PerItem(e.imk, e.b, <<>>, Fit, LAMBDA t : <<C0>>)>>,
       <<"metric", PerItem(e.g, e.b, <<lo, lo>>, Fit, LAMBDA t : Flat(CoreLoc(cs[t], D(t))))>>,
       <<"reported patch", IF e.aff THEN rep(e.patch, P) ELSE "ok">>,
       <<"reported dependent", IF e.dep THEN rep(e.deps, D) ELSE "ok">>,
       <<"eta", PerItem(e.eta, e.b, <<>>, Fit, LAMBDA t : <<CoreEta(cs[t], D(t))>>)>>>>)
JStep(e, s) == [st |-> s, v |-> JCall(e)]
=============================================================================
