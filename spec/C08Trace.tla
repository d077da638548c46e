------------------------------ MODULE C08Trace ------------------------------
EXTENDS TraceBase, PointSample
S0(t) == <<>>
TQ == Tenm(16)
TW == Tenm(14)
TP == Tenm(16)
Item(o, w, i) == SubSeq(o.data, (i - 1) * w + 1, i * w)
Finite(o) == \A i \in 1..Len(o.data) : o.data[i] # NaN
(* out: points [err, shape, data]; patch: [..] or err "none"; w: weights       *)
JSample(e, s) ==
  LET v == e.v n == v.n
      wd == IF e.aff THEN n - 1 ELSE n
      hp(i) == IF e.aff THEN HomOf(Item(e.out, wd, i), e.patch.data[i]) ELSE Item(e.out, wd, i)
      hs == Vec(e.count, hp)
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.out.shape # <<e.count, wd>> THEN "number of points"
     ELSE IF ~Finite(e.out) THEN "non-finite point"
     ELSE IF e.aff /\ (e.patch.err # "" \/ e.patch.shape # <<e.count>>) THEN "patches"
     ELSE IF e.aff /\ \E i \in 1..e.count : e.patch.data[i] \notin 0..(n - 1) THEN "patch index"
     ELSE IF e.aff /\ \E i \in 1..e.count : e.patch.data[i] \notin BestChartsTol(hs[i]) THEN "patch not of largest modulus"
     ELSE IF \E i \in 1..e.count : ~OnVariety(v, hs[i], e.par, TQ) THEN "point not on the variety"
     ELSE IF \E i, j \in 1..e.count : i < j /\ SameLine(hs[i], hs[j], Tenm(22)) THEN "repeated point"
     ELSE IF s # <<>> /\ e.same /\ \E i \in 1..e.count : ~SameLine(hs[i], s[i], TP) THEN "differs from the other variants"
     ELSE IF s # <<>> /\ e.other /\ \E i \in 1..e.count : SameLine(hs[i], s[i], Tenm(20)) THEN "same points for another key"
     ELSE IF e.w.err # "none" /\ e.w.err # "" THEN "weights raised"
     ELSE IF e.w.err = "" /\ e.w.shape # <<e.count>> THEN "weights shape"
     ELSE IF e.w.err = "" /\ \E i \in 1..e.count : LET x == PointWeight(v, hs[i], e.par) IN ~CloseTo(e.w.data[i], x, CAbs2(x), TW) THEN "weight"
     ELSE "ok"
Pts(e) == Vec(e.count, LAMBDA i : IF e.aff THEN HomOf(Item(e.out, e.v.n - 1, i), e.patch.data[i]) ELSE Item(e.out, e.v.n, i))
(* moments: mean of f(z/|z|) within 7 standard deviations of independent lines *)
JMom(e) ==
  LET v == e.v n == v.n
      ns == Vec(e.count, LAMBDA i : LET h == Item(e.out, n, i) IN [h |-> h, n2 |-> Norm2(h)])
      mean(F(_)) == CDiv(CSum(Vec(e.count, LAMBDA i : CRound(F(ns[i]), 60))), CInt(e.count))
      lines == e.count \div e.deg
      bound == CFrac(49, 0, lines)
      nrm == VConj(GradHom(v, Item(e.out, n, 1), e.par))
      near(x, m, sc2) == CLeq(CAbs2(CSub(x, m)), CMul(sc2, bound))
      flat(u) == LET w == Project(u, nrm) w2 == Norm2(w)
                     q(x) == CDiv(CAbs2(Dot(VConj(w), x.h)), CMul(w2, x.n2)) IN
          /\ near(mean(q), SphereMoment(n - 1, 1), CFrac(1, 0, 4))
          /\ near(mean(LAMBDA x : CMul(q(x), q(x))), SphereMoment(n - 1, 2), CFrac(1, 0, 4))
          /\ near(mean(LAMBDA x : CDiv(CMul(Dot(VConj(w), x.h), CConj(x.h[1])), CMul(w2, x.n2))),
                  CDiv(CMul(Dot(VConj(w), Project([k \in 1..n |-> IF k = 1 THEN C1 ELSE C0], nrm)), CFrac(1, 0, n - 1)), w2), CDiv(C1, w2))
      (* share of the points in the k-th tenth of the distribution of q *)
      bins(u) == LET w == Project(u, nrm) w2 == Norm2(w)
                     ten == TLCEval(Vec(e.count, LAMBDA i : LET x == ns[i] IN
                              Tenth(CRound(CSub(C1, CPow(CSub(C1, CDiv(CAbs2(Dot(VConj(w), x.h)), CMul(w2, x.n2))), n - 2)), 40))))
                 IN \A k \in 0..9 : near(CFrac(Cardinality({i \in 1..e.count : ten[i] = k}), 0, e.count), CFrac(1, 0, 10), CFrac(9, 0, 100))
      fermat == /\ \A k \in 1..n : near(mean(LAMBDA x : CDiv(CAbs2(x.h[k]), x.n2)), CFrac(1, 0, n), CFrac(1, 0, 4))
                /\ near(mean(LAMBDA x : CDiv(CMul(x.h[1], CConj(x.h[2])), x.n2)), C0, CFrac(1, 0, 4))
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.out.shape # <<e.count, n>> THEN "number of points"
     ELSE IF e.deg = 1 THEN (IF \A i \in 1..Len(e.us) : flat(e.us[i]) THEN (IF \A i \in 1..Len(e.us) : bins(e.us[i]) THEN "ok" ELSE "distribution differs from the Fubini-Study distribution") ELSE "moments differ from the Fubini-Study distribution")
     ELSE IF fermat THEN "ok" ELSE "moments break the symmetry of the variety"
JStep(e, s) == IF e.op = "moments" THEN [v |-> JMom(e), st |-> s]
   ELSE LET r == JSample(e, s) IN [v |-> IF r = "ok" THEN r ELSE e.fn \o ": " \o r, st |-> IF r = "ok" /\ s = <<>> THEN Pts(e) ELSE s]
=============================================================================
