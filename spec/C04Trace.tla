------------------------------ MODULE C04Trace ------------------------------
EXTENDS TraceBase, HomPoly
SetOf(s) == {s[k] : k \in 1..Len(s)}
TT(T) == TLCEval([k \in 1..Len(T) |-> Tm(T[k].c, SetOf(T[k].m))])
JEval(e) ==
  LET T == TT(e.T)
      m == SProd(e.bshape)
      x(t) == [k \in 1..Len(e.args) |-> Bc(e.args[k], t)]
      y(t) == Bc(e.pars, t)
      p(t) == [k \in 1..Len(e.patch) |-> Bc(e.patch[k], t)]
      good(t) == LET v == HomVals(e.g, T, x(t), y(t), p(t)) IN CloseTo(e.out.data[t], CSum(v), CMax(MaxAbs2(v), Floor2), Tenm(22))
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.out.shape # e.bshape THEN "shape"
     ELSE IF \A t \in 1..m : good(t) THEN "ok" ELSE "value"
(* all: patch tuples, ix: their reported numbers *)
JIndex(e) == IF e.out.err # "" THEN "raised " \o e.out.err
   ELSE FirstBad(<<Clause("no collisions", Cardinality(SetOf(e.out.data)) = Len(e.all)),
                   Clause("numbers as documented", \A k \in 1..Len(e.all) : e.out.data[k] = PatchIndex(e.g, e.all[k]))>>)
JObj(e) == IF e.m.err # "" THEN "raised " \o e.m.err
   ELSE FirstBad(<<Clause("variables of the affine polynomial", e.m.vs = AffGroup(e.g, e.p).vs),
                   Clause("parameters of the affine polynomial", e.m.ps = e.g.ps)>>)
S0(t) == 0
JStep(e, s) == [st |-> s, v |-> LET r == CASE e.op = "eval" -> JEval(e) [] e.op = "index" -> JIndex(e) [] e.op = "affobj" -> JObj(e)
   IN IF r = "ok" THEN r ELSE e.op \o " " \o e.fn \o ": " \o r]
=============================================================================
