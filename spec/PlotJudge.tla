------------------------------ MODULE PlotJudge ------------------------------
(* Verdict on a recorded figure of accuracies: e.cells is a sequence of       *)
(* [row, col, line, band, pix, xl, yl, ylim, clim].                           *)
EXTENDS TraceBase, Marginal
PTol == Tenm(12)
Cl(x, y, s2) == CLeq(CAbs2(CSub(x, y)), CMul(PTol, s2))
ClSeq(x, y, s2) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Cl(x[k], y[k], s2)
JPlot(e) ==
  LET n == Len(e.shape) A == e.A s2 == CMax(MaxAbs2(A), Tenm(12)) how == IF e.how = "default" THEN "mean" ELSE e.how
      lo == IF e.lim \in {1, 3} THEN e.lo ELSE Least(A) hi == IF e.lim \in {2, 3} THEN e.hi ELSE Greatest(A)
      R(a) == e.ranges[ParamOf(a)] R2(a) == CAbs2(R(a)) G(a) == GridSeq(R(a), e.shape[a])
      at(r, c) == SelectSeq(e.cells, LAMBDA x : x.row = r /\ x.col = c)
      JDiag(a) == LET q == at(a, a) IN IF Len(q) # 1 THEN "no plot for a direction"
         ELSE LET x == q[1] IN FirstBad(<<
           Clause("points of the line", ClSeq(x.line[1], G(a), R2(a))),
           Clause("mean", ClSeq(x.line[2], Marg1("mean", A, e.shape, a), s2)),
           Clause("points of the band", ClSeq(x.band[1], G(a), R2(a))),
           Clause("minimum", ClSeq(x.band[2], Marg1("min", A, e.shape, a), s2)),
           Clause("maximum", ClSeq(x.band[3], Marg1("max", A, e.shape, a), s2)),
           Clause("limits", e.flat \/ ClSeq(x.ylim, <<lo, hi>>, s2))>>)
      (* pixel centres against grid points of directions a (across) and b (up) *)
      JImg(a, b) == LET q == at(b, a) IN IF Len(q) # 1 THEN "no image for a pair of directions"
         ELSE LET x == q[1] ga == G(a) gb == G(b) IN FirstBad(<<
           Clause("number of pixels", Len(x.pix) = e.shape[a] * e.shape[b]),
           Clause("pixels", \A i \in 1..e.shape[a], j \in 1..e.shape[b] : \E k \in 1..Len(x.pix) :
                    /\ (e.shape[a] = 1 \/ Cl(x.pix[k][1], ga[i], R2(a))) /\ (e.shape[b] = 1 \/ Cl(x.pix[k][2], gb[j], R2(b)))
                    /\ Cl(x.pix[k][3], Marg2(how, A, e.shape, a, b, i, j), s2)),
           Clause("colours", e.flat \/ ClSeq(x.clim, <<lo, hi>>, s2))>>)
      JLab(r, c) == LET q == at(r, c) IN FirstBad(<<
           Clause("label across", q[1].xl = XText(n, r, c, e.tex)), Clause("label upwards", q[1].yl = YText(n, r, c, e.tex))>>)
      cs == SetToSeq(Cells(n))
  IN IF e.err # "" THEN "raised " \o e.err
     ELSE FirstBad([k \in 1..Len(cs) |-> LET r == cs[k][1] c == cs[k][2] v == IF r = c THEN JDiag(r) ELSE JImg(c, r) IN
            <<"row " \o ToString(r) \o " column " \o ToString(c), IF v = "ok" THEN JLab(r, c) ELSE v>>])
=============================================================================
