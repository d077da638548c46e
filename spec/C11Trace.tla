------------------------------ MODULE C11Trace ------------------------------
EXTENDS TraceBase, Variety
S0(t) == 0
HomPos(p, d) == IF p = -1 THEN d ELSE PosHom(p, d)
Full(z, p, d) == LET y == Ins(z, d + 1, C0) IN IF p = -1 THEN y ELSE HomOf(y, p)
JStep(e, s) ==
  LET v == e.v
      i == HomPos(e.p, e.d) + 1
      deg == DegIn(v.T, i)
      m == SProd(e.bshape)
      len == Len(e.zs[1]) + 1
      pt(t, r) == SubSeq(e.out.data, ((t - 1) * deg + r - 1) * len + 1, ((t - 1) * deg + r) * len)
      kept(t) == \A r \in 1..deg : Drop(pt(t, r), e.d + 1) = Bc(e.zs, t)
      co(t) == UniCoeffs(v.T, i, Full(Bc(e.zs, t), e.p, e.d), Bc(e.pars, t))
      roots(t) == Vec(deg, LAMBDA r : pt(t, r)[e.d + 1])
      ok(t) == LET c == co(t) IN SeqClose(FromRoots(c[1], roots(t)), c, Tenm(16))
      on(t, r) == LET q == pt(t, r) h == IF e.p = -1 THEN q ELSE HomOf(q, e.p) IN
                  CLeq(CAbs2(PEval(v.T, h, Bc(e.pars, t))), CMul(Tenm(12), CMax(PScale2(v.T, h, Bc(e.pars, t)), Floor2)))
  IN [st |-> s, v |-> IF e.out.err # "" THEN "raised " \o e.out.err
       ELSE IF e.out.shape # e.bshape \o <<deg, len>> THEN "one point per root: shape"
       ELSE FirstBad(<<Clause("finite", \A k \in 1..Len(e.out.data) : e.out.data[k] # NaN),
          Clause("given coordinates kept in place", \A t \in 1..m : kept(t)),
          Clause("complete set of roots", \A t \in 1..m : ok(t)),
          Clause("points satisfy the defining equation", \A t \in 1..m : \A r \in 1..deg : on(t, r))>>)]
=============================================================================
