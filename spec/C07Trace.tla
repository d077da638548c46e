------------------------------ MODULE C07Trace ------------------------------
EXTENDS TraceBase, Sections
SetOf(s) == {s[k] : k \in 1..Len(s)}
(* pm: recorded power matrix [err, rows]; size: reported size *)
JFull(e) == IF e.pm.err # "" THEN "raised " \o e.pm.err
  ELSE FirstBad(<<
    Clause("every monomial", SetOf(e.pm.rows) = Forms(e.dim + 1, e.d)),
    Clause("each once", Len(e.pm.rows) = FullSize(e.dim, e.d)),
    Clause("size", e.size = FullSize(e.dim, e.d)),
    Clause("announced size", e.announced = FullSize(e.dim, e.d)),
    Clause("reduced size", e.redsize = RedSize(e.dim, e.d)),
    Clause("power function", SetOf(e.fun.rows) = Forms(e.dim + 1, e.d) /\ Len(e.fun.rows) = FullSize(e.dim, e.d)),
    Clause("index lists", e.d = 0 \/ ({[j \in 1..(e.dim + 1) |-> Cardinality({i \in 1..e.d : r[i] = j - 1})] : r \in SetOf(e.ind.rows)}
                             = Forms(e.dim + 1, e.d) /\ Len(e.ind.rows) = FullSize(e.dim, e.d)))>>)
JRed(e) == IF e.pm.err # "" THEN "raised " \o e.pm.err
  ELSE LET p == AtPar(e.v.T, e.par) IN FirstBad(<<
    Clause("size", e.size = Len(e.pm.rows)),
    Clause("each once", Cardinality(SetOf(e.pm.rows)) = Len(e.pm.rows)),
    Clause("basis modulo the polynomial", p = {} \/ IsReduced(SetOf(e.pm.rows), e.v.n, e.d, p, e.deg)),
    Clause("announced size", e.cy => e.announced = Len(e.pm.rows))>>)
JEval(e) ==
  LET m == SProd(e.bshape)
      val(t) == IF e.ps = <<>> THEN SecVals(e.rows, Bc(e.zs, t)) ELSE SecAff(e.rows, Bc(e.zs, t), Bc(e.ps, t))
      k == Len(e.rows)
      good(t) == LET v == val(t) IN \A i \in 1..k : CloseTo(e.out.data[(t - 1) * k + i], v[i], CMax(CAbs2(v[i]), Tenm(16)), Tenm(20))
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.out.shape # e.bshape \o <<k>> THEN "shape"
     ELSE IF \A t \in 1..m : good(t) THEN "ok" ELSE "value"
S0(t) == 0
JStep(e, s) == [st |-> s, v |-> CASE e.op = "full" -> JFull(e) [] e.op = "reduced" -> JRed(e)
   [] e.op = "eval" -> LET r == JEval(e) IN IF r = "ok" THEN r ELSE "evaluation " \o e.fn \o ": " \o r]
=============================================================================
