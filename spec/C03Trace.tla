------------------------------ MODULE C03Trace ------------------------------
EXTENDS TraceBase, PolyObj
(* g: described grouping, T: described terms, opt: information given, m: the  *)
(* reported grouping [err, vs, ps]                                            *)
SetOf(s) == {s[k] : k \in 1..Len(s)}
TT(T) == [k \in 1..Len(T) |-> Tm(T[k].c, SetOf(T[k].m))]
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Variable(m, s) == \E k \in 1..Len(m.vs) : m.vs[k].name = s[1]
Firsts(q) == FoldLeft(LAMBDA acc, s : IF \E k \in 1..Len(acc) : acc[k] = s[1] THEN acc ELSE Append(acc, s[1]), <<>>, q)
JMeta(e) ==
  LET T == TT(e.T) sup == Support(T) m == e.m
      nm == e.opt \in {"names", "np", "npd", "npi", "nd", "ni", "sym", "symp"}
      ix == e.opt \in {"npd", "npi", "nd", "ni", "sym", "symp"}
      pr == e.opt \in {"pars", "np", "npd", "npi", "symp"}
      used(v) == SortInts({i \in SetOf(v.idx) : <<v.name, i>> \in sup})
      supp == {p \in SetOf(e.g.ps) : <<p, -1>> \in sup}
      loose == e.opt = "none" /\ e.ctor # "poly"       \* nothing said: every symbol is a variable
      given(v) == IF ix \/ v.sc THEN v ELSE [v EXCEPT !.idx = used(v)]
      exvs == [k \in 1..Len(e.g.vs) |-> given(e.g.vs[k])]
  IN IF m.err # "" THEN "raised " \o m.err
     ELSE FirstBad(<<
       Clause("variables given", nm => m.vs = exvs),
       Clause("variables found", ~nm => SetOf(m.vs) = SetOf(exvs) \cup (IF loose THEN {[name |-> p, sc |-> TRUE, idx |-> <<>>] : p \in supp} ELSE {})),
       (* order: that of the generators, else alphabetical (abc: the symbols of the terms in that order) *)
       Clause("order of variables", nm \/ VarNames(m) = (IF e.ctor = "poly" THEN VarNames([vs |-> exvs]) ELSE Firsts(SelectSeq(e.abc, LAMBDA s : Variable(m, s))))),
       Clause("order of parameters", pr \/ e.ctor = "poly" \/ m.ps = Firsts(SelectSeq(e.abc, LAMBDA s : ~Variable(m, s)))),
       Clause("each variable once", Cardinality(SetOf(VarNames(m))) = Len(m.vs)),
       Clause("parameters given", pr => m.ps = e.g.ps),
       Clause("parameters found", ~pr => SetOf(m.ps) = (IF loose THEN {} ELSE IF e.ctor = "poly" /\ e.opt # "none" THEN SetOf(m.ps) ELSE supp)
                                   \/ (e.ctor = "poly" /\ supp \subseteq SetOf(m.ps) /\ SetOf(m.ps) \subseteq SetOf(e.g.ps))),
       Clause("each parameter once", Cardinality(SetOf(m.ps)) = Len(m.ps))>>)
JEval(e) ==
  LET T == TT(e.T)
      N == SProd(e.bshape)
      x(t) == [k \in 1..Len(e.args) |-> Bc(e.args[k], t)]
      y(t) == IF e.pars = <<>> THEN <<>> ELSE Bc(e.pars, t)
      vals(t) == OVals(T, LAMBDA s : Bind(e.m, x(t), y(t), s))
      good(t) == LET v == vals(t) IN CloseTo(e.out.data[t], CSum(v), CMax(MaxAbs2(v), Floor2), Tenm(22))
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.out.shape # e.bshape THEN "shape"
     ELSE IF \A t \in 1..N : good(t) THEN "ok" ELSE "value"
S0(t) == 0
JStep(e, s) == [st |-> s, v |-> IF e.op = "meta" THEN JMeta(e)
                                ELSE LET r == JEval(e) IN IF r = "ok" THEN r ELSE "evaluation " \o e.fn \o ": " \o r]
=============================================================================
