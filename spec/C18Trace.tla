------------------------------ MODULE C18Trace ------------------------------
(* State: number of elements each sampler has delivered, the stream seen so   *)
(* far, and the points that begin each set of points (to recognise repeats).  *)
EXTENDS TraceBase, PointSample
S0(t) == [pos |-> <<0, 0, 0, 0>>, els |-> <<>>, first |-> {}, pars |-> {}, keys |-> <<>>]
TQ == Tenm(16)
TW == Tenm(14)
TE == Tenm(12)
Row(o, w, i) == SubSeq(o.data, (i - 1) * w + 1, i * w)
(* distinct calls of the parameter sampler that gave these values *)
FromSampler(e) == \E c \in 1..Len(e.draws) : e.draws[c].asked = e.sets /\ e.draws[c].vals = e.params.data
El(e) == [params |-> e.params, zs |-> e.zs, patch |-> e.patch, w |-> e.w]
SameEl(a, b) == a.params = b.params /\ SeqClose(a.zs.data, b.zs.data, TE) /\ a.patch = b.patch /\ SeqClose(a.w.data, b.w.data, TE)
Firsts(e) == [s \in 1..e.sets |-> Row(e.zs, e.v.n - 1, (s - 1) * e.points + 1)]
(* parameter values that a continuous parameter sampler never gives twice *)
Pars(e) == IF e.uniq THEN [s \in 1..e.sets |-> Row(e.params, Len(e.v.T[1].b), s)] ELSE <<>>
Again(f, seen) == (\E i, j \in 1..Len(f) : i < j /\ f[i] = f[j]) \/ \E i \in 1..Len(f) : f[i] \in seen
JEl(e) ==
  LET v == e.v n == v.n m == e.sets * e.points
      par(s) == Row(e.params, Len(v.T[1].b), s)
      z(i) == Row(e.zs, n - 1, i)
      set(i) == 1 + ((i - 1) \div e.points)
      h(i) == HomOf(z(i), e.patch.data[i])
  IN IF e.params.shape # <<e.sets, Len(v.T[1].b)>> THEN "number of parameter sets"
     ELSE IF e.zs.shape # <<e.sets, e.points, n - 1>> \/ e.patch.shape # <<e.sets, e.points>> \/ e.w.shape # <<e.sets, e.points>> THEN "number of points"
     ELSE IF ~FromSampler(e) THEN "parameters not drawn from the parameter sampler"
     ELSE IF \E i \in 1..m : e.patch.data[i] \notin 0..(n - 1) THEN "patch index"
     ELSE IF \E i \in 1..m, k \in 1..(n - 1) : e.zs.data[(i - 1) * (n - 1) + k] = NaN THEN "non-finite point"
     ELSE IF \E i \in 1..m : ~OnVariety(v, h(i), par(set(i)), TQ) THEN "point not on the variety of its parameters"
     ELSE IF \E i \in 1..m : LET x == PointWeight(v, h(i), par(set(i))) IN ~CloseTo(e.w.data[i], x, CAbs2(x), TW) THEN "weight"
     ELSE "ok"
JNext(e, s) ==
  IF e.params.err # "" THEN [v |-> "raised " \o e.params.err, st |-> s]
  ELSE LET k == e.sampler
           p == s.pos[k] + 1
           t == [s EXCEPT !.pos[k] = p]
           f == Firsts(e)
           r == IF p <= Len(s.els) THEN "ok" ELSE JEl(e)
       IN IF r # "ok" THEN [v |-> r, st |-> s]
          ELSE IF p <= Len(s.els) THEN [v |-> IF SameEl(El(e), s.els[p]) THEN "ok" ELSE "not the next element of the stream of the seed", st |-> t]
          ELSE IF Again(f, s.first) THEN [v |-> "repeated sample", st |-> t]
          ELSE IF Again(Pars(e), s.pars) THEN [v |-> "repeated parameters", st |-> t]
          ELSE [v |-> "ok", st |-> [t EXCEPT !.els = Append(@, El(e)), !.first = @ \cup {f[i] : i \in 1..Len(f)},
                                             !.pars = @ \cup {Pars(e)[i] : i \in 1..Len(Pars(e))}]]
(* a sampler of another seed: not the same stream *)
JOther(e, s) ==
  IF e.params.err # "" THEN [v |-> "raised " \o e.params.err, st |-> s]
  ELSE LET f == Firsts(e) IN [v |-> IF \E i \in 1..Len(f) : f[i] \in s.first THEN "another seed gives the same samples" ELSE JEl(e), st |-> s]
Has(q, x) == \E i \in 1..Len(q) : q[i] = x
(* key sequences *)
JKeys(e, s) ==
  LET q == e.keys IN
  IF e.err # "" THEN [v |-> "raised " \o e.err, st |-> s]
  ELSE IF Len(q) # e.count \/ \E i, j \in 1..Len(q) : i < j /\ q[i] = q[j] THEN [v |-> "keys repeat", st |-> s]
  ELSE IF Has(q, e.start) THEN [v |-> "initial key handed out", st |-> s]
  ELSE IF e.same /\ s.keys # <<>> /\ q # s.keys THEN [v |-> "keys differ for the same seed", st |-> s]
  ELSE IF ~e.same /\ \E i \in 1..Len(q) : Has(s.keys, q[i]) THEN [v |-> "keys shared between seeds", st |-> s]
  ELSE [v |-> "ok", st |-> IF s.keys = <<>> THEN [s EXCEPT !.keys = q] ELSE s]
JStep(e, s) == CASE e.op = "next" -> JNext(e, s) [] e.op = "other" -> JOther(e, s) [] e.op = "keys" -> JKeys(e, s)
=============================================================================
