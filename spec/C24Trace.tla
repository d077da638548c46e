------------------------------ MODULE C24Trace ------------------------------
EXTENDS TraceBase, Accuracy, PointSample, Cholesky
S0(t) == 0
T2(e) == IF e.single THEN Tenm(6) ELSE Tenm(18)
Inds(e) == 1..Len(e.zs)
(* the three items of the call; every item is judged on its own scale *)
Items(e, o, sh, F(_)) == LET w == SProd(sh) m == Len(e.zs) IN
  IF o.err # "" THEN "raised " \o o.err ELSE IF o.shape # <<m>> \o sh THEN "shape"
  ELSE IF \E i \in 1..Len(o.data) : o.data[i] = NaN THEN "non-finite value"
  ELSE IF \A t \in 1..m : SeqClose(SubSeq(o.data, (t - 1) * w + 1, t * w), F(t), T2(e)) THEN "ok" ELSE "value"
Near(e) == IF e.single THEN CFrac(10001, 0, 10000) ELSE CFrac(1000001, 0, 1000000)
LargestOf(e, G) == {d \in 0..(Len(G) - 1) : \A k \in 1..Len(G) : CLeq(CAbs2(G[k]), CMul(CAbs2(G[d + 1]), Near(e)))}
IntIn(e, o, S(_)) == IF o.err # "" THEN "raised " \o o.err ELSE IF o.shape # <<Len(e.zs)>> THEN "shape"
  ELSE IF \A t \in Inds(e) : o.data[t] \in S(t) THEN "ok" ELSE "value"
(* roots: the given coordinates stay, the roots of each item multiply out to  *)
(* its coefficients where the leading one is not small                        *)
JSolve(e) ==
  LET v == e.v n == v.n p == e.ps[1] d == e.ds[1] i == PosHom(p, d) + 1 deg == DegIn(v.T, i)
      pt(t, r) == SubSeq(e.out.data, ((t - 1) * deg + r - 1) * (n - 1) + 1, ((t - 1) * deg + r) * (n - 1))
      co(t) == UniCoeffs(v.T, i, HomOf(Ins(Drop(e.zs[t], d + 1), d + 1, C0), p), e.pars[t])
      fit(t) == LET c == co(t) IN CLeq(MaxAbs2(c), CMul(CInt(10000), CAbs2(c[1])))
  IN IF e.out.err # "" THEN "raised " \o e.out.err ELSE IF e.out.shape # <<Len(e.zs), deg, n - 1>> THEN "shape"
     ELSE IF \E t \in Inds(e) : fit(t) /\ \E r \in 1..deg : \E k \in 1..(n - 1) : pt(t, r)[k] = NaN THEN "non-finite value"
     ELSE IF \E t \in Inds(e) : fit(t) /\ \E r \in 1..deg : ~SeqClose(Drop(pt(t, r), d + 1), Drop(e.zs[t], d + 1), T2(e)) THEN "given coordinates"
     ELSE IF \E t \in Inds(e) : fit(t) /\ LET c == co(t) IN
                ~SeqClose(FromRoots(c[1], Vec(deg, LAMBDA r : pt(t, r)[d + 1])), c, IF e.single THEN Tenm(4) ELSE Tenm(14)) THEN "roots" ELSE "ok"
(* loss of the three points with the first parameters *)
JLoss(e) ==
  LET v == e.v m == Len(e.zs)
      cs == Vec(m, LAMBDA t : Core(v, e.pm, e.k, e.H, FALSE, e.zs[t], e.pars[1], e.ps[t]))
      loc(t) == CoreLoc(cs[t], BigDep(cs[t].G))
      fit == \A t \in 1..m : CLeq(CPow(MaxAbs2(Flat(loc(t))), Rows(loc(t))), CMul(CInt(2000), CAbs2(Det(loc(t)))))
      eta == Vec(m, LAMBDA t : CRound(CRe(CoreEta(cs[t], BigDep(cs[t].G))), 160))
      w == Vec(m, LAMBDA t : CAbs2(e.sc[t]))
      nrm == LossNorm(eta, w)
      big == FoldLeft(LAMBDA a, t : CMax(a, CMul(w[t], CAdd(C1, CAbs2(CDiv(eta[t], nrm))))), C1, Range0(m))
  IN IF e.out.err # "" THEN "raised " \o e.out.err ELSE IF e.out.shape # <<>> THEN "shape"
     ELSE IF fit /\ ~CloseTo(e.out.data[1], LossOf(eta, w), CMul(big, big), T2(e)) THEN "value" ELSE "ok"
JStep(e, s) ==
  LET v == e.v n == v.n
      z(t) == e.zs[t]
      h(t) == e.hs[t]
      par(t) == e.pars[t]
      p(t) == e.ps[t]
      d(t) == e.ds[t]
      G(t) == GradAff(v, z(t), par(t), p(t))
      core(t) == Core(v, e.pm, e.k, e.H, FALSE, z(t), par(t), p(t))
      fs(t) == FSMetric(z(t), VConj(z(t)))
      r == CASE e.fn = "chart" -> Items(e, e.out, <<n - 1>>, LAMBDA t : AffOf(h(t), p(t)))
             [] e.fn = "auto" -> LET a == IntIn(e, e.int, LAMBDA t : LargestOf(e, h(t))) IN
                                 IF a # "ok" THEN "chosen patch " \o a ELSE Items(e, e.out, <<n - 1>>, LAMBDA t : AffOf(h(t), e.int.data[t]))
             [] e.fn = "rechart" -> Items(e, e.out, <<n - 1>>, LAMBDA t : AffOf(HomOf(z(t), p(t)), (p(t) + 1) % n))
             [] e.fn = "solve" -> JSolve(e)
             [] e.fn = "chol" -> Items(e, e.out, <<2, 2>>, LAMBDA t : LET x == h(t) IN Flat(DecodePar(<<CRe(x[1]), CIm(x[1]), CRe(x[2]), CIm(x[2])>>, 2)))
             [] e.fn = "loss" -> JLoss(e)
             [] e.fn = "hom" -> Items(e, e.out, <<n>>, LAMBDA t : HomOf(z(t), p(t)))
             [] e.fn = "fs" -> Items(e, e.out, <<n - 1, n - 1>>, LAMBDA t : Flat(fs(t)))
             [] e.fn = "pot" -> Items(e, e.out, <<>>, LAMBDA t : <<CAdd(C1, Norm2(z(t)))>>)
             [] e.fn = "poly" -> Items(e, e.out, <<>>, LAMBDA t : <<QHom(v, h(t), par(t))>>)
             [] e.fn = "polyaff" -> Items(e, e.out, <<>>, LAMBDA t : <<QAff(v, z(t), par(t), p(t))>>)
             [] e.fn = "grad" -> Items(e, e.out, <<n - 1>>, G)
             [] e.fn = "best" -> IntIn(e, e.int, LAMBDA t : LargestOf(e, G(t)))
             [] e.fn = "jac" -> Items(e, e.out, <<n - 2, n - 1>>, LAMBDA t : Flat(EmbedJac(G(t), d(t))))
             [] e.fn = "indfs" -> Items(e, e.out, <<n - 2, n - 2>>, LAMBDA t : Flat(InducedR(fs(t), G(t), d(t))))
             [] e.fn = "weight" -> Items(e, e.out, <<>>, LAMBDA t : <<Weight(v, z(t), par(t), p(t), d(t), C1)>>)
             [] e.fn = "sections" -> Items(e, e.out, <<Len(e.pm)>>, LAMBDA t : Vec(Len(e.pm), LAMBDA i : Mon(HomOf(z(t), p(t)), e.pm[i])))
             [] e.fn = "expk" -> Items(e, e.out, <<>>, LAMBDA t : <<core(t).psi>>)
             [] e.fn = "metric" -> Items(e, e.out, <<n - 2, n - 2>>, LAMBDA t : Flat(CoreLoc(core(t), d(t))))
             [] e.fn = "eta" -> Items(e, e.out, <<>>, LAMBDA t : <<CoreEta(core(t), d(t))>>)
             [] e.fn = "ricci" -> IF e.single THEN (IF e.out.err # "" THEN "raised " \o e.out.err ELSE IF e.out.shape # <<Len(e.zs)>> THEN "shape" ELSE "ok")
                                  ELSE Items(e, e.out, <<>>, LAMBDA t : <<Geo(v, e.pm, e.k, e.H, FALSE, z(t), par(t), p(t), d(t), TRUE).scalar>>)
             [] e.fn = "sample" -> IF e.out.err # "" THEN "raised " \o e.out.err ELSE IF e.out.shape # <<Len(e.zs), 4, n>> THEN "shape"
                                   ELSE IF \E i \in 1..Len(e.out.data) : e.out.data[i] = NaN THEN "non-finite value"
                                   ELSE IF \A t \in Inds(e), j \in 0..3 : OnVariety(v, SubSeq(e.out.data, ((t - 1) * 4 + j) * n + 1, ((t - 1) * 4 + j + 1) * n), par(t),
                                                                                  IF e.single THEN Tenm(5) ELSE Tenm(16)) THEN "ok" ELSE "not on the variety"
  IN [st |-> s, v |-> IF r = "ok" THEN r ELSE e.fn \o " [" \o e.form \o "]: " \o r]
=============================================================================
