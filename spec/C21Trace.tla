------------------------------ MODULE C21Trace ------------------------------
EXTENDS TraceBase, Sampling
S0(t) == 0
KindOf(fn) == IF fn = "rsphere" THEN "f" ELSE "c"
Form(o, shape, kind) == IF o.err # "" THEN "raised " \o o.err ELSE IF o.shape # shape THEN "shape"
   ELSE IF o.kind # kind THEN "kind" ELSE IF \E i \in 1..Len(o.data) : o.data[i] = NaN THEN "non-finite value" ELSE "ok"
RowN(o, n, k) == SubSeq(o.data, (k - 1) * n + 1, k * n)
NRows(o, n) == IF n = 0 THEN 0 ELSE Len(o.data) \div n
Repro(e) == <<Clause("same key", e.again = e.out), Clause("another key", Len(e.out.data) = 0 \/ e.fixed \/ e.other.data # e.out.data)>>
Distinct(d) == \A i, j \in 1..Len(d) : i < j => d[i] # d[j]
JRange(e) ==
  LET lo == CFrac(e.lo, 0, 4) hi == CFrac(e.hi, 0, 4)
      n == IF Len(e.shape) = 0 THEN 1 ELSE e.shape[Len(e.shape)]
      d == e.out.data
      ok == CASE e.fn = "components" -> \A i \in 1..Len(d) : InSquare(d[i])
              [] e.fn = "unit" -> \A i \in 1..Len(d) : InAnnulus(d[i], C1, C1)
              [] e.fn \in {"disk", "annulus"} -> \A i \in 1..Len(d) : InAnnulus(d[i], lo, hi)
              [] OTHER -> \A k \in 1..NRows(e.out, n) : OnSphere(RowN(e.out, n, k))
  IN FirstBad(<<<<"form", Form(e.out, e.shape, KindOf(e.fn))>>, Clause("region", e.out.err # "" \/ ok)>> \o Repro(e)
       \o <<Clause("distinct values", e.fixed \/ n = 1 \/ e.fn = "rsphere" \/ Distinct(d))>>)
JProj(e) ==
  LET n == e.dim + 1 IN
  FirstBad(<<<<"homogeneous form", Form(e.out, <<e.count, n>>, "c")>>, <<"affine form", Form(e.aff, <<e.count, e.dim>>, "c")>>,
     <<"patch form", IF e.patch.err # "" THEN e.patch.err ELSE IF e.patch.shape # <<e.count>> THEN "shape" ELSE "ok">>,
     Clause("nonzero points", \A k \in 1..e.count : Norm2(RowN(e.out, n, k)) # C0)>> \o Repro(e) \o
   <<Clause("chart of largest modulus", \A k \in 1..e.count : e.patch.data[k] \in BestChartsTol(RowN(e.out, n, k))),
     <<"affine coordinates of the same points", Judged(e.aff, <<e.count, e.dim>>,
         FoldLeft(LAMBDA a, k : a \o AffOf(RowN(e.out, n, k), e.patch.data[k]), <<>>, Range0(e.count)), Tol2)>>>>)
JOver(e) ==
  LET P == CFrac(e.size, 0, 8)
      pts == [k \in 1..e.count |-> RowN(e.out, e.dim, k)]
  IN FirstBad(<<<<"form", Form(e.out, <<e.count, e.dim>>, "c")>>>> \o Repro(e) \o
       <<Clause("inside this patch", \A k \in 1..e.count : InPatch(pts[k], P)),
         Clause("in the other chart", \A k \in 1..e.count : InChart(HomOf(pts[k], e.p), e.q)),
         Clause("inside the other patch", \A k \in 1..e.count : InPatch(Rechart(pts[k], e.p, e.q), P))>>)
Table(e) == CASE e.fn = "components" -> CompMoments
   [] e.fn \in {"annulus", "unit"} -> DiskMoments(CFrac(e.a * e.a, 0, 16), CFrac(e.b * e.b, 0, 16))
   [] e.fn = "rsphere" -> SphereMoments(e.n)
   [] e.fn = "csphere" -> CSphereMoments(e.n)
   [] e.fn \in {"projhom", "projaff"} -> CSphereMoments(e.n + 1)
   [] e.fn = "overlap" -> OverlapMoments(CFrac(e.a, 0, 8))
JStat(e) == LET t == Table(e)
                bad == {k \in 1..Len(e.names) : ~Within(e.vals[k], t[e.names[k]], e.N)} IN
   IF e.err # "" THEN "raised " \o e.err
   ELSE IF bad = {} THEN "ok" ELSE "moment " \o e.names[CHOOSE k \in bad : TRUE] \o " of " \o e.fn
JStep(e, s) == [v |-> CASE e.op = "range" -> JRange(e) [] e.op = "projective" -> JProj(e) [] e.op = "overlap" -> JOver(e)
                        [] e.op = "stat" -> JStat(e), st |-> s]
=============================================================================
