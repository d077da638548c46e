------------------------------ MODULE C05Trace ------------------------------
EXTENDS TraceBase, PolyAlg
SetOf(s) == {s[k] : k \in 1..Len(s)}
TT(T) == TLCEval([k \in 1..Len(T) |-> Tm(T[k].c, SetOf(T[k].m))])
(* recorded object: [err, g, T, x, y, val]: reported grouping, terms, and the *)
(* value at the inputs x (one vector per variable), y                         *)
JObj(r, o) ==
  LET vals == OVals(o.T, LAMBDA s : Bind(r.g, r.x, r.y, s)) IN
  IF r.err # "" THEN "raised " \o r.err
  ELSE FirstBad(<<Clause("variables", r.g.vs = o.g.vs), Clause("parameters", r.g.ps = o.g.ps),
                  Clause("polynomial", Nearly(TT(r.T), o.T, Tenm(24))),
                  <<"value", IF r.val.err # "" THEN "raised " \o r.val.err
                             ELSE IF CloseTo(r.val.data[1], CSum(vals), CMax(MaxAbs2(vals), Floor2), Tenm(20)) THEN "ok" ELSE "differs">>>>)
S0(t) == <<>>
JStep(e, s) ==
  IF e.op = "base" THEN LET o == [g |-> e.g, T |-> AsSeq(TT(e.T))] IN
     [st |-> Append(s, o), v |-> FirstBad(<<<<"operand", JObj(e.out, o)>>>>)]
  ELSE LET o == Apply(s, e.what) IN
     [st |-> Append(s, o), v |-> FirstBad(<< <<"result of " \o e.fn, JObj(e.out, o)>>,
        <<"left operand afterwards", JObj(e.left, s[e.what.i])>>,
        <<"right operand afterwards", IF e.what.o = "poly" THEN JObj(e.right, s[e.what.j]) ELSE "ok">> >>)]
=============================================================================
