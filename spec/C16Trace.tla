------------------------------ MODULE C16Trace ------------------------------
EXTENDS TraceBase, Accuracy
S0(t) == <<>>
TS == Tenm(14)
TL == Tenm(14)
BigDep(G) == CHOOSE d \in 0..(Len(G) - 1) : \A k \in 1..Len(G) : CLeq(CAbs2(G[k]), CAbs2(G[d + 1]))
(* sigma: items b of the batch have parameters Bc(pars, b), matrices Bc(hs, b)*)
(* samples: recorded [par, pts] ; a sample belongs to the parameters it shows *)
SampleFor(e, par) == {i \in 1..Len(e.samples) : e.samples[i].par = par}
SigItem(e, par, H) == LET s == e.samples[CHOOSE i \in SampleFor(e, par) : TRUE].pts
      eta == Vec(Len(s), LAMBDA i : EtaAt(e.v, e.pm, e.k, H, s[i].z, par, s[i].p))
      w == Vec(Len(s), LAMBDA i : CRound(Weight(e.v, s[i].z, par, s[i].p, BigDep(GradAff(e.v, s[i].z, par, s[i].p)), C1), 160))
       m == WMean(eta, w) a == WMean(Vec(Len(s), LAMBDA i : AbsR(eta[i])), w)
   (* not judged when the normalisation is nearly zero *)
   IN [ill |-> ~CLeq(a, CMul(CInt(20), AbsR(m))), v |-> IF m = C0 THEN C0 ELSE SigmaOf(eta, w)]
JSigma(e) ==
  LET m == SProd(e.b) IN
  IF e.out.err # "" THEN "raised " \o e.out.err
  ELSE IF e.out.shape # e.b THEN "shape"
  ELSE IF \E i \in 1..m : e.out.data[i] = NaN THEN "non-finite value"
  ELSE IF \E i \in 1..m : SampleFor(e, Bc(e.pars, i)) = {} THEN "no sample drawn for the parameters"
  ELSE IF \E i \in 1..Len(e.samples) : Len(e.samples[i].pts) # e.count THEN "number of points"
  ELSE IF \E i \in 1..m : ~(CIm(e.out.data[i]) = C0 /\ CLeq(C0, e.out.data[i])) THEN "not a non-negative real"
  ELSE LET bad == {i \in 1..m : LET x == SigItem(e, Bc(e.pars, i), Bc(e.hs, i)) IN ~(x.ill \/ CloseTo(e.out.data[i], x.v, CMax(C1, CAbs2(x.v)), TS))} IN
       IF bad = {} THEN "ok" ELSE "value"
JScaled(e, s) == IF e.out.err # "" THEN "raised " \o e.out.err
   ELSE IF e.out.shape = s.shape /\ SeqClose(e.out.data, s.data, TS) THEN "ok" ELSE "changed with the scale of H"
(* loss of one item; not judged when the normalisation is nearly zero *)
JLoss(e) ==
  LET ej(x) == Vec(Len(x.zs), LAMBDA i : EtaJet(e.v, e.pm, e.k, x.h, x.dir, x.zs[i], x.par, x.ps[i]))
      one(b) == LET x == e.items[b] j == ej(x)
                    eta == Vec(Len(j), LAMBDA i : j[i][1]) de == Vec(Len(j), LAMBDA i : j[i][2])
                    w == x.ws
                    m == WMean(eta, w) a == WMean(Vec(Len(j), LAMBDA i : AbsR(eta[i])), w)
                    ill == ~CLeq(a, CMul(CInt(10), AbsR(m))) \/ \E i \in 1..Len(j) : CLeq(CMul(CInt(1000000), AbsR(eta[i])), a)
                    (* the weights are e.wsc * w *)
                    lv == CAdd(CMul(e.wsc, LossVar(eta, w)), LossPen(eta))
                    ld == CAdd(CMul(e.wsc, LossVarD(eta, de, w)), LossPenD(eta, de))
                    u == CMax(CMul(e.wsc, e.wsc), IF \A i \in 1..Len(j) : CLeq(C0, eta[i]) THEN C0 ELSE C1)
                IN IF ill THEN "ok"
                   ELSE IF ~CloseTo(e.out.data[b], lv, CMax(u, CAbs2(lv)), TL) THEN "value"
                   ELSE IF ~CloseTo(e.tan.data[b], ld, CMax(CMax(u, CAbs2(lv)), CAbs2(ld)), TL) THEN "derivative" ELSE "ok"
      n == Len(e.items)
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.tan.err # "" THEN "derivative raised " \o e.tan.err
     ELSE IF e.out.shape # <<n>> \/ e.tan.shape # <<n>> THEN "shape"
     ELSE IF \A b \in 1..n : one(b) = "ok" THEN "ok" ELSE one(CHOOSE b \in 1..n : one(b) # "ok")
JStep(e, s) == CASE e.op = "sigma" -> [v |-> JSigma(e), st |-> e.out]
                 [] e.op = "scaled" -> [v |-> JScaled(e, s), st |-> s]
                 [] e.op = "loss" -> [v |-> LET r == JLoss(e) IN IF r = "ok" THEN r ELSE e.fn \o ": " \o r, st |-> s]
=============================================================================
