------------------------------ MODULE C14Trace ------------------------------
EXTENDS TraceBase, CoordChange
(* st: values read from fresh objects, a sequence of [a |-> name, o |-> output] *)
S0(t) == <<>>
TR == Tenm(14)
Mtx(data, q) == [i \in 1..q |-> SubSeq(data, (i - 1) * q + 1, i * q)]
JViews(e) ==
  LET v == e.v
      q == v.n - 2
      W(x, y) == LocChange(v, e.h, e.par, x.p, x.d, y.p, y.d)
      near(a, b) == SeqClose(a, b, TR)
      x == e.views[1]
      ok(y) == FirstBad(<<
        Clause("reported patch is not the given one", y.gp = -1 \/ y.p = y.gp),
        Clause("reported dependent is not the given one", y.gd = -1 \/ y.d = y.gd),
        Clause("potential", near(<<PotInv(e.h, y.p, e.k, y.expk)>>, <<PotInv(e.h, x.p, e.k, x.expk)>>)),
        Clause("eta", near(<<EtaInv(e.h, y.p, v.n, e.deg, y.eta)>>, <<EtaInv(e.h, x.p, v.n, e.deg, x.eta)>>)),
        Clause("ricci scalar", near(<<y.scalar>>, <<x.scalar>>)),
        Clause("metric", near(Flat(Moved(W(y, x), Mtx(x.g, q))), y.g)),
        Clause("ricci tensor", near(Flat(Moved(W(y, x), Mtx(x.r, q))), y.r))>>)
      bad == {i \in 1..Len(e.views) : ok(e.views[i]) # "ok"}
  IN IF e.err # "" THEN "raised " \o e.err
     ELSE IF bad = {} THEN "ok"
     ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN e.views[i].how \o ": " \o ok(e.views[i])
JRead(e, s) == LET f == CHOOSE i \in 1..Len(s) : s[i].a = e.a
                   o == s[f].o IN
   IF e.out.err # "" THEN "raised " \o e.out.err
   ELSE IF o.err # "" THEN "fresh object raised " \o o.err
   ELSE IF e.out.shape # o.shape THEN "shape"
   ELSE IF SeqClose(e.out.data, o.data, Tenm(20)) THEN "ok" ELSE "value depends on earlier reads"
JStep(e, s) == CASE e.op = "views" -> [v |-> JViews(e), st |-> s]
                 [] e.op = "fresh" -> [v |-> IF e.gd # -1 /\ \E i \in 1..Len(e.vals) : e.vals[i].a = "dependent" /\ e.vals[i].o.data # <<CInt(e.gd)>>
                                               THEN "dependent: not the given one" ELSE "ok", st |-> e.vals]
                 [] e.op = "read" -> [v |-> LET r == JRead(e, s) IN IF r = "ok" THEN r ELSE e.a \o ": " \o r, st |-> s]
=============================================================================
