-------------------------------- MODULE Poly --------------------------------
(* Polynomials as sequences of terms [c |-> number, a |-> exponents of the    *)
(* variables, b |-> exponents of the parameters].                             *)
EXTENDS Jet
Mon(x, a) == CProd(Vec(Len(a), LAMBDA k : IF a[k] = 0 THEN C1 ELSE CPow(x[k], a[k])))
PEval(T, x, par) == SumOver(Len(T), LAMBDA t : CMul(T[t].c, CMul(Mon(x, T[t].a), Mon(par, T[t].b))))
(* sum of the moduli of the terms, a scale for cancellation *)
PScale2(T, x, par) == MaxAbs2(Vec(Len(T), LAMBDA t : CMul(T[t].c, CMul(Mon(x, T[t].a), Mon(par, T[t].b)))))
(* derivative in variable i, as terms *)
PDiff(T, i) == LET S == SelectSeq(T, LAMBDA t : t.a[i] > 0) IN
   [k \in 1..Len(S) |-> [S[k] EXCEPT !.c = CMul(CInt(S[k].a[i]), S[k].c), !.a = [S[k].a EXCEPT ![i] = @ - 1]]]
PDiffPar(T, i) == LET S == SelectSeq(T, LAMBDA t : t.b[i] > 0) IN
   [k \in 1..Len(S) |-> [S[k] EXCEPT !.c = CMul(CInt(S[k].b[i]), S[k].c), !.b = [S[k].b EXCEPT ![i] = @ - 1]]]
PGrad(T, x, par) == Vec(Len(x), LAMBDA i : PEval(PDiff(T, i), x, par))
(* evaluation on jets; the parameters are constants *)
JMon(x, a) == FoldLeft(LAMBDA acc, k : IF a[k] = 0 THEN acc ELSE JMul(acc, JPow(x[k], a[k])), JOne, Range0(Len(a)))
PJet(T, x, par) == JSumOver(Len(T), LAMBDA t : JScale(CMul(T[t].c, Mon(par, T[t].b)), JMon(x, T[t].a)))
(* degree in variable i and coefficient list (highest first) in it at values  *)
PMax(S) == CHOOSE m \in S : \A k \in S : k <= m
DegIn(T, i) == PMax({0} \cup {T[t].a[i] : t \in 1..Len(T)})
CoeffTerms(T, i, d) == LET S == SelectSeq(T, LAMBDA t : t.a[i] = d) IN
   [k \in 1..Len(S) |-> [S[k] EXCEPT !.a = [S[k].a EXCEPT ![i] = 0]]]
UniCoeffs(T, i, x, par) == LET d == DegIn(T, i) IN Vec(d + 1, LAMBDA k : PEval(CoeffTerms(T, i, d + 1 - k), x, par))
TotalDeg(t) == FoldLeft(LAMBDA s, k : s + k, 0, t.a)
Homogeneous(T) == \A i, j \in 1..Len(T) : TotalDeg(T[i]) = TotalDeg(T[j])
(* coefficients (highest first) of lead * prod (t - root) *)
FromRoots(lead, roots) == FoldLeft(LAMBDA acc, r :
     Vec(Len(acc) + 1, LAMBDA k : CSub(IF k <= Len(acc) THEN acc[k] ELSE C0, IF k > 1 THEN CMul(r, acc[k - 1]) ELSE C0)),
     <<lead>>, roots)
(* algebra on terms *)
PAdd(S, T) == S \o T
PNeg(T) == [k \in 1..Len(T) |-> [T[k] EXCEPT !.c = CNeg(T[k].c)]]
TMul(s, t) == [c |-> CMul(s.c, t.c), a |-> Vec(Len(s.a), LAMBDA k : s.a[k] + t.a[k]), b |-> Vec(Len(s.b), LAMBDA k : s.b[k] + t.b[k])]
PMul(S, T) == FoldLeft(LAMBDA acc, i : acc \o [k \in 1..Len(T) |-> TMul(S[i], T[k])], <<>>, Range0(Len(S)))
(* collected form: exponents to coefficient, without zeros *)
Keys(T) == {<<T[k].a, T[k].b>> : k \in 1..Len(T)}
Collect(T) == LET co(key) == CSum(LET S == SelectSeq(T, LAMBDA t : <<t.a, t.b>> = key) IN [k \in 1..Len(S) |-> S[k].c])
              IN {<<key, co(key)>> : key \in {k \in Keys(T) : co(k) # C0}}
SamePoly(S, T) == Collect(S) = Collect(T)
=============================================================================
