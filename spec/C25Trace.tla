------------------------------ MODULE C25Trace ------------------------------
EXTENDS TraceBase, Describe
S0(t) == 0
SetOf(s) == {s[k] : k \in 1..Len(s)}
TT(T) == [k \in 1..Len(T) |-> Tm(T[k].c, SetOf(T[k].m))]
(* printed numbers have about fifteen digits *)
TD == Tenm(26)
(* coefficients that are integers up to no rounding at all *)
Integral(T) == \A k \in 1..Len(T) : CAdd(T[k].c, C0)[3] = C1[3]
JPoly(e) ==
  LET g == e.g IN
  IF e.err # "" THEN "raised " \o e.err
  ELSE FirstBad(<<
    Clause("signature", e.sig = SigOf(g)),
    Clause("positions of variables", SetOf(e.vpos) = Positions(Names(g)) /\ Len(e.vpos) = Len(g.vs)),
    Clause("positions of parameters", SetOf(e.ppos) = Positions(g.ps) /\ Len(e.ppos) = Len(g.ps)),
    Clause("symbols by variable", e.grouped = Grouped(g)),
    Clause("symbols by variable, with parameters", e.groupedp = Append(Grouped(g), [sc |-> FALSE, names |-> g.ps])),
    Clause("list of symbols", e.flat = Flattened(g)),
    Clause("list of symbols with parameters", e.flatp = Flattened(g) \o g.ps),
    Clause("parameters of the domain", e.domain = g.ps),
    Clause("printed head", e.head = TextHead(e.type, g)),
    Clause("printed polynomial", Nearly(TT(e.text), TT(e.T), TD)),
    Clause("integers printed as integers", Integral(e.T) => e.dots = 0),
    Clause("typeset head", e.texhead = TexHead(e.type, g, e.tex)),
    Clause("typeset polynomial", Nearly(TT(e.textext), TT(e.T), TD))>>)
JVariety(e) ==
  IF e.err # "" THEN "raised " \o e.err
  ELSE FirstBad(<<
    Clause("dimensions", e.dims = Dims(e.n, Len(e.ps))),
    Clause("parameters", e.pars = e.ps),
    Clause("printed form", e.text = VarietyText(e.type, e.n, e.poly)),
    Clause("typeset form", e.tex = VarietyTex(e.type, e.n, e.polytex))>>)
JSub(e) == IF e.err # "" THEN "raised " \o e.err
           ELSE IF \A i \in 1..Len(e.back) : e.back[i] = <<e.name, e.sub>> THEN "ok" ELSE "name and subscript are not recovered"
JStep(e, s) == [st |-> s, v |-> LET r == CASE e.op = "poly" -> JPoly(e) [] e.op = "variety" -> JVariety(e) [] e.op = "subscript" -> JSub(e)
                                IN IF r = "ok" THEN r ELSE e.fn \o ": " \o r]
=============================================================================
