------------------------------ MODULE C06Trace ------------------------------
EXTENDS TraceBase, PolyObj
SetOf(s) == {s[k] : k \in 1..Len(s)}
TT(T) == TLCEval([k \in 1..Len(T) |-> Tm(T[k].c, SetOf(T[k].m))])
Close(o, v) == CloseTo(o, CSum(v), CMax(MaxAbs2(v), Floor2), Tenm(20))
(* terms described by coefficients co, parameter factors cp (lists of names)  *)
(* and powers pw: per variable [none, rows]                                   *)
VMon(v, row) == LET q == VarSyms(v) IN {<<q[k][1], q[k][2], row[k]>> : k \in {j \in 1..Len(q) : row[j] > 0}}
ParMon(cp) == {<<p, -1, Cardinality({k \in 1..Len(cp) : cp[k] = p})>> : p \in SetOf(cp)}
Assemble(g, e) == [t \in 1..Len(e.co) |-> Tm(e.co[t],
   FoldLeft(LAMBDA m, k : IF e.pw[k].none THEN m ELSE m \cup VMon(g.vs[k], e.pw[k].rows[t]), ParMon(e.cp[t]), Range0(Len(g.vs))))]
Shaped(g, e) == /\ Len(e.cp) = Len(e.co) /\ Len(e.pw) = Len(g.vs)
                /\ \A k \in 1..Len(g.vs) : ~e.pw[k].none => /\ Len(e.pw[k].rows) = Len(e.co)
                     /\ \A t \in 1..Len(e.co) : Len(e.pw[k].rows[t]) = Len(VarSyms(g.vs[k]))
JSplit(e) == IF e.err # "" THEN "raised " \o e.err
  ELSE FirstBad(<<Clause("shape of the decomposition", Shaped(e.g, e)),
                  Clause("parameters known", \A t \in 1..Len(e.cp) : SetOf(e.cp[t]) \subseteq SetOf(e.g.ps)),
                  Clause("reassembled", Nearly(Assemble(e.g, e), TT(e.T), Tenm(24)))>>)
JRec(r, g, T) ==
  LET vals == OVals(T, LAMBDA s : Bind(r.g, r.x, r.y, s)) IN
  IF r.err # "" THEN "raised " \o r.err
  ELSE FirstBad(<<Clause("variables", r.g.vs = g.vs), Clause("parameters", r.g.ps = g.ps),
                  Clause("polynomial", Nearly(TT(r.T), T, Tenm(24))),
                  <<"value", IF r.val.err # "" THEN "raised " \o r.val.err ELSE IF Close(r.val.data[1], vals) THEN "ok" ELSE "differs">>>>)
(* coefficients in symbol s, highest first *)
DegS(T, s) == LET D == {Exp(x[1], s) : x \in Collected(T)} IN IF D = {} THEN 0 ELSE CHOOSE d \in D : \A q \in D : q <= d
Part(T, s, d) == LET S == SelectSeq(T, LAMBDA t : Exp(t.m, s) = d) IN [k \in 1..Len(S) |-> Tm(S[k].c, MonWithout(S[k].m, s))]
JUni(e) ==
  LET T == TT(e.T) d == DegS(T, e.s)
      want(k) == AsSeq(Part(T, e.s, d + 1 - k))
      entry(k) == LET r == e.list[k] v == OVals(want(k), LAMBDA s : Bind(r.g, r.x, r.y, s)) IN
         IF r.err # "" THEN "raised " \o r.err
         ELSE FirstBad(<<Clause("without the variable", e.s \notin PolySyms(TT(r.T)) /\ e.s \notin Bound(r.g)),
                Clause("coefficient", Nearly(TT(r.T), want(k), Tenm(24))),
                Clause("parameters kept", r.num \/ r.g.ps = e.g.ps),
                <<"value", IF r.val.err # "" THEN "raised " \o r.val.err ELSE IF Close(r.val.data[1], v) THEN "ok" ELSE "differs">>>>)
  IN IF e.err # "" THEN "raised " \o e.err
     ELSE IF Len(e.list) # d + 1 THEN "number of coefficients"
     ELSE FirstBad([k \in 1..(d + 1) |-> <<"coefficient", entry(k)>>])
(* monomials at the values x: one number per term *)
JMono(e) ==
  LET val(t) == CMul(e.co[t], CProd([k \in 1..Len(e.x) |-> IF e.pw[k].none THEN C1 ELSE
                   CProd([i \in 1..Len(e.x[k]) |-> CPow(e.x[k][i], e.pw[k].rows[t][i])])]))
      m == Len(e.co)
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.out.shape # <<m>> THEN "shape"
     ELSE IF \A t \in 1..m : LET v == val(t) IN CloseTo(e.out.data[t], v, CMax(CAbs2(v), Tenm(12)), Tenm(20)) THEN "ok" ELSE "value"
S0(t) == 0
JStep(e, s) == [st |-> s, v |->
   LET r == CASE e.op = "split" -> JSplit(e) [] e.op = "rebuild" -> JRec(e.out, e.g, TT(e.T)) [] e.op = "uni" -> JUni(e)
              [] e.op = "mono" -> JMono(e)
   IN IF r = "ok" THEN r ELSE e.op \o " " \o e.fn \o ": " \o r]
=============================================================================
