------------------------------ MODULE C19Trace ------------------------------
EXTENDS TraceBase, Cholesky
S0(t) == 0
HermObs(o, n) == LET M == [i \in 1..n |-> SubSeq(o.data, (i - 1) * n + 1, i * n)] IN
    \A i \in 1..n : \A j \in 1..n : CloseTo(M[i][j], CConj(M[j][i]), CMax(MaxAbs2(o.data), Floor2), Tenm(20))
(* ten bins between 1 - fl and 1 + fl; the share of each is a tenth, counts   *)
(* farther off than six standard deviations are not accepted                  *)
Uniform(o, n, fl) ==
  IF o.err # "" THEN "raised " \o o.err ELSE IF o.shape # <<n>> THEN "shape" ELSE IF \E i \in 1..n : o.data[i] = NaN THEN "not finite" ELSE IF \E i \in 1..n : ~CLeq(CAbs2(CSub(o.data[i], C1)), CMul(CMul(fl, fl), CAdd(C1, Tenm(9)))) THEN "out of range"
  ELSE LET edge(k) == CAdd(CSub(C1, fl), CMul(fl, CFrac(k, 0, 5)))
           below == [k \in 0..10 |-> Cardinality({i \in 1..n : CLt(o.data[i], edge(k))})]
       IN IF \A k \in 1..10 : LET c == 10 * (below[k] - below[k - 1]) - n IN c * c <= 36 * 9 * n THEN "ok" ELSE "distribution"
JStep(e, s) ==
  LET v == CASE e.op = "decode" ->
        LET H == Flat(Decode(e.diag, e.upper)) IN
        FirstBad(<<<<"decoded entries", Judged(e.out, <<e.n, e.n>>, H, Tenm(20))>>,
                   Clause("hermitian", HermObs(e.out, e.n)),
                   <<"decoded flat parameters", Judged(e.outp, <<e.n, e.n>>, Flat(DecodePar(e.par, e.n)), Tenm(20))>>>>)
    [] e.op = "batch" ->
        FirstBad(<<<<"vectorised decoding", Judged(e.out, <<3, e.n, e.n>>,
            Flat(Decode(e.diag[1], e.upper[1])) \o Flat(Decode(e.diag[2], e.upper[2])) \o Flat(Decode(e.diag[3], e.upper[3])), Tenm(20))>>>>)
    [] e.op = "tangent" -> FirstBad(<<<<"derivative", Judged(e.out, <<e.n, e.n>>, Flat(DecodeDir(e.par, e.dir, e.n)), Tenm(20))>>>>)
    [] e.op = "spread" -> FirstBad(<<<<"uniform on the stated range", Uniform(e.out, e.n, e.fl)>>>>)
    [] e.op = "init" ->
        LET fl == CMul(CAdd(C1, IF e.want = 4 THEN Tenm(4) ELSE Tenm(12)), e.fl)   \* the range, up to rounding
            par == e.par.data
            n == e.n
        IN FirstBad(<<
          <<"initial parameters", IF e.par.err # "" THEN e.par.err ELSE IF e.par.shape # <<n * n>> THEN "shape"
                                  ELSE IF e.par.kind # "f" THEN "not real" ELSE "ok">>,
          Clause("number format as requested", e.par.err # "" \/ e.size.data = <<CInt(e.want)>>),
          Clause("only the diagonal fluctuates", e.par.err # "" \/ \A i \in (n + 1)..Len(par) : par[i] = C0),
          Clause("identity by default", e.par.err # "" \/ e.fl # C0 \/ \A i \in 1..n : par[i] = C1),
          Clause("diagonal stays within the stated range around one", e.par.err # "" \/ \A i \in 1..n :
                    CLeq(CAbs2(CSub(par[i], C1)), CMul(fl, fl))),
          Clause("fluctuation requested but absent", e.par.err # "" \/ e.fl = C0 \/ \E i \in 1..n : par[i] # C1),
          Clause("reproducible", e.again = e.par),
          <<"decoded initial matrix", Judged(e.dec, <<n, n>>, Flat(DecodePar(par, n)), IF e.want = 4 THEN Tenm(12) ELSE Tenm(20))>>,
          <<"initial matrix is the identity", IF e.fl # C0 THEN "ok" ELSE Judged(e.dec, <<n, n>>, Flat(Id(n)), C0)>>>>)
  IN [v |-> v, st |-> s]
=============================================================================
