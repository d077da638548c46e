------------------------------ MODULE C01Trace ------------------------------
EXTENDS TraceBase, Charts
(* events                                                                     *)
(*  start  : pt                         the homogeneous point handed in       *)
(*  to_affine/to_hom/change/auto : q, out (auto: patch)   conversion applied  *)
(*           to the coordinates the implementation itself returned before     *)
(*  batch  : fn, n, bshape, pts, ps, qs, out, patch                           *)
(*  index  : n, p, i2h (affine->hom for all i), h2i (hom->affine, h # p)      *)
S0(t) == [hom |-> <<>>, rep |-> -1, cur |-> <<>>]
Sh1(v) == <<Len(v)>>
Ok(v, s) == [v |-> v, st |-> s]
JStep(e, s) ==
  CASE e.op = "start" -> Ok("ok", HomState(e.pt))
    [] e.op = "to_affine" -> LET t == DoToAffine(s, e.q) IN
         Ok(FirstBad(<<<<"to_affine", Judged(e.out, Sh1(t.cur), t.cur, Tol2)>>>>), t)
    [] e.op = "to_hom" -> LET t == DoToHom(s) IN
         Ok(FirstBad(<<<<"to_hom", Judged(e.out, Sh1(t.cur), t.cur, Tol2)>>>>), t)
    [] e.op = "change" -> LET t == DoRechart(s, e.q) IN
         Ok(FirstBad(<<<<"change_chart", Judged(e.out, Sh1(t.cur), t.cur, Tol2)>>>>), t)
    [] e.op = "auto" ->
         IF e.out.err # "" THEN Ok("auto: raised " \o e.out.err, s)
         ELSE IF e.patch \notin BestChartsTol(s.cur) THEN Ok("auto: chart not of largest modulus", s)
         ELSE LET t == DoToAffine(s, e.patch) IN
              Ok(FirstBad(<<<<"auto", Judged(e.out, Sh1(t.cur), t.cur, Tol2)>>>>), t)
    [] e.op = "batch" ->
         LET size == SProd(e.bshape)
             pt(t) == Bc(e.pts, t)
             item(t) == CASE e.fn = "to_affine" -> AffOf(pt(t), Bc(e.ps, t))
                          [] e.fn = "auto" -> AffOf(pt(t), Bc(e.patch.data, t))
                          [] e.fn = "to_hom" -> HomOf(pt(t), Bc(e.ps, t))
                          [] e.fn = "change" -> Rechart(pt(t), Bc(e.ps, t), Bc(e.qs, t))
             bad == e.fn = "auto" /\ (\/ e.patch.err # "" \/ e.patch.shape # e.bshape
                       \/ \E t \in 1..size : e.patch.data[t] \notin BestChartsTol(pt(t)))
         IN IF bad THEN Ok("batch auto: chart not of largest modulus", s)
            ELSE LET ex == FoldLeft(LAMBDA a, t : a \o item(t), <<>>, Range0(size))
                     last == IF e.fn = "to_hom" THEN e.n + 1 ELSE e.n
                 IN Ok(FirstBad(<<<<"batch " \o e.fn, Judged(e.out, Append(e.bshape, last), ex, Tol2)>>>>), s)
    [] e.op = "index" ->
         LET i2h == [i \in 1..e.n |-> PosHom(e.p, i - 1)]
             hs == SelectSeq([h \in 1..(e.n + 1) |-> h - 1], LAMBDA h : h # e.p)
             h2i == [i \in 1..e.n |-> PosAff(e.p, hs[i])]
         IN Ok(FirstBad(<<<<"affine position to homogeneous", JudgedInt(e.i2h, <<e.n>>, i2h)>>,
                          <<"homogeneous position to affine", JudgedInt(e.h2i, <<e.n>>, h2i)>>>>), s)
=============================================================================
