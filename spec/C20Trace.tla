------------------------------ MODULE C20Trace ------------------------------
EXTENDS TraceBase, HNet
S0(t) == 0
T2 == Tenm(16)
RowOf(o, n, b) == SubSeq(o.data, (b - 1) * n + 1, b * n)
(* features : m, hp, ws (moduli roots per row), form, ang/abs/par/all : recorded feature rows *)
FRow(o, nr, b) == LET n == Len(o.data) \div nr IN RowOf(o, n, b)
FOk(o) == o.err = "" /\ \A i \in 1..Len(o.data) : o.data[i] # NaN
JFeat(e) ==
  LET nr == Len(e.ws)
      bad(o) == IF o.err # "" THEN "raised " \o o.err ELSE IF ~FOk(o) THEN "non-finite value" ELSE "ok"
      rows(P(_)) == \A b \in 1..nr : P(b)
  IN FirstBad(<<<<"angle features", bad(e.ang)>>, <<"modulus features", bad(e.abs)>>, <<"part features", bad(e.par)>>,
        <<"all features", bad(e.all)>>,
        Clause("angles", rows(LAMBDA b : BagClose(FRow(e.ang, nr, b), AnglePhases(e.ws[b]), T2))),
        Clause("moduli of the products", rows(LAMBDA b : BagClose(FRow(e.abs, nr, b), AbsFeatures(e.ws[b], e.hp), T2))),
        Clause("real and imaginary parts", rows(LAMBDA b : BagClose(FRow(e.par, nr, b), PartFeatures(e.ws[b], e.hp), T2))),
        Clause("switches combine", rows(LAMBDA b : BagClose(FRow(e.all, nr, b),
              FRow(e.rawang, nr, b) \o FRow(e.abs, nr, b) \o FRow(e.par, nr, b), T2)))>>)
(* init : fresh network: out rows, bs, fl *)
JInit(e) ==
  LET n == e.bs
      nn == n * n
      nr == Len(e.ws)
      o == e.out
      row(b) == RowOf(o, nn, b)
      r1 == row(1)
      lo == CSub(CSub(C1, e.fl), Tenm(6))
      hi == CAdd(CAdd(C1, e.fl), Tenm(6))
      scale == CDiv(CSum(SubSeq(r1, 1, n)), CInt(n))
  IN IF o.err # "" THEN "raised " \o o.err
     ELSE IF o.shape # <<nr, nn>> THEN "output shape"
     ELSE IF o.kind # "f" THEN "output not real"
     ELSE FirstBad(<<Clause("finite", \A i \in 1..Len(o.data) : o.data[i] # NaN),
        Clause("fresh output independent of the moduli", \A b \in 1..nr : row(b) = r1),
        Clause("fresh off-diagonal parameters vanish", \A i \in (n + 1)..nn : r1[i] = C0),
        Clause("fresh diagonal positive", \A i \in 1..n : CLt(C0, r1[i])),
        Clause("multiple of the identity up to the fluctuation", \A i \in 1..n : \A j \in 1..n :
             CLeq(CMul(r1[i], lo), CMul(r1[j], hi))),
        Clause("fluctuation present", e.fl = C0 \/ n = 1 \/ \E i \in 1..n : r1[i] # r1[1]),
        <<"single set of moduli", Judged(e.single, <<nn>>, r1, T2)>>>>)
(* maps : network with arbitrary weights *)
JMaps(e) ==
  LET nn == e.bs * e.bs
      nr == Len(e.ws)
      o == e.out
  IN IF o.err # "" THEN "raised " \o o.err
     ELSE IF o.shape # <<nr, nn>> THEN "output shape"
     ELSE IF o.kind # "f" THEN "output not real"
     ELSE FirstBad(<<Clause("finite", \A i \in 1..Len(o.data) : o.data[i] # NaN),
        <<"row one alone", Judged(e.s1, <<nn>>, RowOf(o, nn, 1), T2)>>,
        <<"row two alone", Judged(e.s2, <<nn>>, RowOf(o, nn, 2), T2)>>,
        <<"row three alone", Judged(e.s3, <<1, nn>>, RowOf(o, nn, 3), T2)>>,
        <<"rows reversed", Judged(e.rev, <<nr, nn>>, RowOf(o, nn, 3) \o RowOf(o, nn, 2) \o RowOf(o, nn, 1), T2)>>,
        <<"scalar modulus", IF e.m # 1 THEN "ok" ELSE Judged(e.sc, <<nn>>, RowOf(o, nn, 1), T2)>>,
        Clause("repeated evaluation", e.again = o),
        Clause("depends on the moduli", e.ws[2] = e.ws[3] \/ RowOf(o, nn, 2) # RowOf(o, nn, 3))>>)
(* layers : feats (feature rows), Ks, bs (kernels and biases in order), act;  *)
(* dKs, dbs a direction (weights are single precision, so the rates are)      *)
JLayers(e) ==
  LET nr == Len(e.feats)
      nn == IF e.sig THEN Len(e.bs[Len(e.bs)]) \div 2 ELSE Len(e.bs[Len(e.bs)])
      y == Vec(nr, LAMBDA b : Outputs(e.feats[b], e.Ks, e.bs, e.act))
      flat(P(_)) == Flat(Vec(nr, P))
      plain == Flat(y)
      one == Flat(Vec(nr, LAMBDA b : Suppressed(y[b], TRUE)))
      two == Flat(Vec(nr, LAMBDA b : Suppressed(y[b], FALSE)))
      d == Vec(nr, LAMBDA b : OutPair(e.feats[b], e.Ks, e.bs, e.dKs, e.dbs, e.act))
      rate(k) == Flat(Vec(nr, LAMBDA b : IF k = 0 THEN d[b].r ELSE SuppressedRate(d[b], k = 1)))
      both(k, want) == FirstBad(<<<<"output", Judged(e.out, <<nr, nn>>, want, T2)>>,
                               <<"derivative by the weights", Judged(e.fwd, <<nr, nn>>, rate(k), Tenm(9))>>,
                               <<"derivative by the weights, reverse mode", Judged(e.rev, <<nr, nn>>, rate(k), Tenm(9))>>>>)
  IN IF e.err # "" THEN "raised " \o e.err
     ELSE IF ~e.sig THEN both(0, plain)
     ELSE IF Judged(e.out, <<nr, nn>>, two, T2) = "ok" THEN both(2, two) ELSE both(1, one)
(* dropout : units with unit weights, runs with several keys *)
JDropout(e) ==
  LET nr == Len(e.feats)
      n == Len(e.feats[1])
      rates == e.rates
      fs == SetToSeq(Masks(rates))
      val == Vec(nr, LAMBDA b : Vec(n, LAMBDA i : Vec(Len(fs), LAMBDA f : UnitVal(e.feats[b][i], rates, fs[f], e.act))))
      plain == Flat(Vec(nr, LAMBDA b : Vec(n, LAMBDA i : UnitVal(e.feats[b][i], [k \in 1..Len(rates) |-> <<>>], fs[1], e.act))))
      bad(o) == o.err # "" \/ o.shape # <<nr, n>>
      at(o, b, i) == o.data[(b - 1) * n + i]
      is(o, b, i, f) == LET x == val[b][i][f] IN CloseTo(at(o, b, i), x, CMax(C1, CAbs2(x)), T2)
      left(o, b, i) == at(o, b, i) = C0
      some == \E k \in 1..Len(rates) : rates[k] # <<>>
      last == rates[Len(rates)] # <<>>
  IN IF \E k \in 1..Len(e.outs) : bad(e.outs[k]) THEN LET k == CHOOSE k \in 1..Len(e.outs) : bad(e.outs[k]) IN
          IF e.outs[k].err # "" THEN "raised " \o e.outs[k].err ELSE "output shape"
     ELSE FirstBad(<<<<"deterministic", Judged(e.det, <<nr, n>>, plain, T2)>>,
        Clause("each unit kept or left out", \A k \in 1..Len(e.outs) : \A b \in 1..nr, i \in 1..n : \E f \in 1..Len(fs) : is(e.outs[k], b, i, f)),
        Clause("every layer with a rate leaves out", \A f \in 1..Len(fs) : \E k \in 1..Len(e.outs) : \E b \in 1..nr, i \in 1..n : is(e.outs[k], b, i, f)),
        Clause("rows separately", ~last \/ \E k \in 1..Len(e.outs) : \E i \in 1..n : left(e.outs[k], 1, i) # left(e.outs[k], 2, i)),
        Clause("units separately", ~last \/ \E k \in 1..Len(e.outs) : \E i \in 2..n : left(e.outs[k], 1, i) # left(e.outs[k], 1, 1)),
        Clause("fresh choice per key", ~some \/ \E k \in 2..Len(e.outs) : e.outs[k].data # e.outs[1].data),
        <<"same key, same choice", Judged(e.again, <<nr, n>>, e.outs[1].data, T2)>>>>)
JStep(e, s) == [v |-> CASE e.op = "features" -> JFeat(e) [] e.op = "init" -> JInit(e) [] e.op = "maps" -> JMaps(e) [] e.op = "layers" -> JLayers(e) [] e.op = "dropout" -> JDropout(e), st |-> s]
=============================================================================
