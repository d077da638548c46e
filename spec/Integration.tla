---------------------------- MODULE Integration ----------------------------
(* Monte Carlo estimates. A sample is a sequence of [z, w]; an integrand maps *)
(* a point to a tuple of values (one component for scalar integrands).        *)
EXTENDS Lin
(* integrands by name, at point z in C^m *)
FSize(f, m) == CASE f \in {"vec", "cvec"} -> m [] f = "mat" -> m * m [] OTHER -> 1
FVal(f, z) == LET m == Len(z) IN
   CASE f = "one" -> <<C1>>
     [] f = "lin" -> <<CRe(z[1])>>
     [] f = "sq" -> <<CSum([i \in 1..m |-> CAbs2(z[i])])>>
     [] f = "cplx" -> <<CMul(z[1], z[1])>>
     [] f = "vec" -> [i \in 1..m |-> CSub(CRe(z[i]), CIm(z[i]))]
     [] f = "cvec" -> z
     [] f = "mat" -> [i \in 1..(m * m) |-> CRe(CMul(z[1 + ((i - 1) \div m)], CConj(z[1 + ((i - 1) % m)])))]
Terms(f, S, c) == Vec(Len(S), LAMBDA i : CMul(FVal(f, S[i].z)[c], S[i].w))
Mean(s) == CRound(CDiv(CSum(s), CInt(Len(s))), 200)
(* estimate, and variance of the estimate, component c, sample size n *)
Est(f, S, c) == Mean(Terms(f, S, c))
SqMean(f, S, c) == LET t == Terms(f, S, c) IN Mean(Vec(Len(t), LAMBDA i : CAbs2(t[i])))
VarEst(f, S, c) == CDiv(CSub(SqMean(f, S, c), CAbs2(Est(f, S, c))), CInt(Len(S)))
RECURSIVE Union(_)
Union(B) == IF B = <<>> THEN <<>> ELSE Head(B) \o Union(Tail(B))
=============================================================================
