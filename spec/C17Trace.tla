------------------------------ MODULE C17Trace ------------------------------
EXTENDS TraceBase, Integration, Variety
S0(t) == <<>>
TI == Tenm(16)
TV == Tenm(12)
Shape(f, m) == CASE f \in {"vec", "cvec"} -> <<m>> [] f = "mat" -> <<m, m>> [] OTHER -> <<>>
Arr(f, m, F(_)) == [c \in 1..FSize(f, m) |-> F(c)]
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
JEst(e, f, m, S) ==
  LET est == Arr(f, m, LAMBDA c : Est(f, S, c))
      va == Arr(f, m, LAMBDA c : VarEst(f, S, c))
      sq == Arr(f, m, LAMBDA c : CDiv(SqMean(f, S, c), CInt(Len(S))))
      scale(c) == SqMean(f, S, c)
  IN IF e.plain.err # "" THEN "raised " \o e.plain.err
     ELSE IF e.val.err # "" THEN "with variance raised " \o e.val.err
     ELSE IF e.plain.shape # Shape(f, m) \/ e.val.shape # Shape(f, m) \/ e.var.shape # Shape(f, m) THEN "shape"
     ELSE IF \E c \in 1..Len(est) : ~CloseTo(e.plain.data[c], est[c], scale(c), TI) THEN "estimate"
     ELSE IF \E c \in 1..Len(est) : ~CloseTo(e.val.data[c], est[c], scale(c), TI) THEN "estimate with variance"
     ELSE IF \E c \in 1..Len(est) : ~CloseTo(e.var.data[c], va[c], CAbs2(sq[c]), TV) THEN "variance"
     ELSE "ok"
(* every call of the sampler: [key, asked, pts] *)
JCalls(calls, n, count) ==
  IF Len(calls) # n THEN "number of batches"
  ELSE IF \E i \in 1..n : calls[i].asked # count \/ Len(calls[i].pts) # count THEN "batch size"
  ELSE IF ~Distinct([i \in 1..n |-> calls[i].key]) THEN "batches share randomness"
  ELSE "ok"
JMc(e) == LET r == JCalls(e.calls, e.batches, e.count) r2 == JCalls(e.calls2, e.batches, e.count) IN
  IF e.plain.err # "" \/ e.val.err # "" THEN JEst(e, e.fn, e.m, <<>>)
  ELSE IF r # "ok" THEN r ELSE IF r2 # "ok" THEN r2
  ELSE IF {e.calls[i] : i \in 1..Len(e.calls)} # {e.calls2[i] : i \in 1..Len(e.calls2)} THEN "samples depend on the variance flag"
  ELSE JEst(e, e.fn, e.m, Union([i \in 1..Len(e.calls) |-> e.calls[i].pts]))
BigDep(G) == CHOOSE d \in 0..(Len(G) - 1) : \A k \in 1..Len(G) : CLeq(CAbs2(G[k]), CAbs2(G[d + 1]))
JVol(e) == LET r == JCalls(e.calls, e.batches, e.count)
     S == Union([i \in 1..Len(e.calls) |-> e.calls[i].pts])
     X == Vec(Len(S), LAMBDA i : [z |-> S[i].z, w |-> CRound(Weight(e.v, S[i].z, e.par, S[i].p, BigDep(GradAff(e.v, S[i].z, e.par, S[i].p)), C1), 160)])
  IN IF e.plain.err # "" \/ e.val.err # "" THEN JEst(e, "one", 1, <<>>)
     ELSE IF r # "ok" THEN r
     ELSE IF \E i \in 1..Len(e.calls) : e.calls[i].par # e.par THEN "parameters"
     ELSE JEst(e, "one", 1, X)
JStep(e, s) == [v |-> CASE e.op = "vol" -> JVol(e) [] OTHER -> JMc(e), st |-> s]
=============================================================================
