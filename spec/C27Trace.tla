------------------------------ MODULE C27Trace ------------------------------
EXTENDS TraceBase, Accept
S0(t) == 0
SetOf(s) == {s[k] : k \in 1..Len(s)}
DeclOf(e) == [syms |-> SetOf(e.syms), names |-> e.names, pars |-> e.pars, idx |-> e.idx]
Should(e) == CASE e.op = "declare" -> Fits(DeclOf(e))
               [] e.op = "call" -> CallFits(e)
               [] e.op \in {"kind", "other"} -> e.good
               [] e.op = "insert_1d" -> InsertFits(e.a, e.b)
               [] e.op = "insert_col" -> ColumnFits(e.a, e.b)
               [] e.op = "conjugates" -> e.same
               [] e.op = "coords" -> CoordsFit(e.n, e.patch, e.len)
               [] e.op = "mix" -> MixFits(e.sa, e.sb)
JStep(e, s) == [st |-> s, v |->
   IF Should(e) /\ ~e.ok THEN e.op \o " " \o e.fn \o ": rejected although it fits: " \o e.err
   ELSE IF ~Should(e) /\ e.ok THEN e.op \o " " \o e.fn \o ": accepted although it does not fit"
   ELSE IF e.op = "declare" /\ e.ok THEN
     LET d == DeclOf(e) g == GroupOf(d) IN
     IF SetOf(e.vs) # g.vs \/ SetOf(e.ps) # g.ps THEN "declare: variables or parameters"
     ELSE IF d.names.given /\ [k \in 1..Len(e.vs) |-> e.vs[k].name] # d.names.v THEN "declare: order of variables"
     ELSE IF d.pars.given /\ e.ps # d.pars.v THEN "declare: order of parameters" ELSE "ok"
   ELSE "ok"]
=============================================================================
