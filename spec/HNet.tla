-------------------------------- MODULE HNet --------------------------------
(* Features of the moduli network.  A modulus is given by its square root w   *)
(* (so psi = w^2) and a power by twice its value, which keeps half-integer    *)
(* powers exact.                                                              *)
EXTENDS Cholesky
Psi(w) == CMul(w, w)
IPow(x, k) == IF k >= 0 THEN CPow(x, k) ELSE CDiv(C1, CPow(x, -k))
(* all nonzero combinations of the chosen powers, one per modulus *)
PowSet(hp) == {0} \cup {hp[i] : i \in 1..Len(hp)}
Combos(hp, m) == {f \in [1..m -> PowSet(hp)] : \E i \in 1..m : f[i] # 0}
Product(ws, f) == CProd(Vec(Len(ws), LAMBDA i : IPow(ws[i], f[i])))
ComboSeq(hp, m) == SetToSeq(Combos(hp, m))
Products(ws, hp) == LET cs == ComboSeq(hp, Len(ws)) IN Vec(Len(cs), LAMBDA i : Product(ws, cs[i]))
(* each feature list is a bag *)
AbsFeatures(ws, hp) == LET ps == Products(ws, hp) IN Vec(Len(ps), LAMBDA i : Sqrt(CAbs2(ps[i])))
PartFeatures(ws, hp) == LET ps == Products(ws, hp) IN
    Vec(Len(ps), LAMBDA i : CRe(ps[i])) \o Vec(Len(ps), LAMBDA i : CIm(ps[i]))
(* exp(i angle), which determines an angle in (-pi, pi] *)
AnglePhases(ws) == Vec(Len(ws), LAMBDA i : LET p == Psi(ws[i]) IN
    IF p = C0 THEN C1 ELSE CDiv(p, Sqrt(CAbs2(p))))
(* ---------------------------------------------------------- forward pass *)
EBits == 160
ERnd(x) == CRound(x, EBits)
RECURSIVE ExpPos(_)
ExpPos(x) == IF CLt(CFrac(1, 0, 2), x) THEN LET y == ExpPos(CDiv(x, CInt(2))) IN ERnd(CMul(y, y))
             ELSE FoldLeft(LAMBDA acc, k : ERnd(CAdd(C1, CDiv(CMul(x, acc), CInt(k)))), C1, [k \in 1..24 |-> 25 - k])
Exp(x) == IF CLt(x, C0) THEN CDiv(C1, ExpPos(CNeg(x))) ELSE ExpPos(x)
Sigmoid(x) == IF ~CLt(x, CInt(100)) THEN C1 ELSE IF ~CLt(CInt(-100), x) THEN C0 ELSE ERnd(CDiv(C1, CAdd(C1, Exp(CNeg(x)))))
Act(a, x) == CASE a = "sigmoid" -> Sigmoid(x) [] a = "square" -> CAdd(CMul(x, x), C1)
               [] a = "ratio" -> ERnd(CDiv(x, CAdd(C1, CMul(x, x)))) [] a = "half" -> IF CLt(x, C0) THEN C0 ELSE x
(* kernel: rows of inputs, one column per output *)
DenseOut(x, K, b) == Vec(Len(b), LAMBDA j : CAdd(b[j], CSum(Vec(Len(x), LAMBDA i : CMul(x[i], K[i][j])))))
Hidden(x, Ks, bs, a) == FoldLeft(LAMBDA acc, k : LET y == DenseOut(acc, Ks[k], bs[k]) IN Vec(Len(y), LAMBDA j : Act(a, y[j])), x, [k \in 1..(Len(Ks) - 1) |-> k])
Outputs(x, Ks, bs, a) == DenseOut(Hidden(x, Ks, bs, a), Ks[Len(Ks)], bs[Len(bs)])
(* one half suppresses the other; which one is a convention *)
Suppressed(y, first) == LET n == Len(y) \div 2 IN Vec(n, LAMBDA j : IF first THEN CMul(Sigmoid(y[j]), y[n + j]) ELSE CMul(y[j], Sigmoid(y[n + j])))
(* the same along a direction of all weights: values and rates as a pair      *)
ActD(a, x) == CASE a = "sigmoid" -> LET s == Sigmoid(x) IN ERnd(CMul(s, CSub(C1, s))) [] a = "square" -> CMul(CInt(2), x)
                [] a = "ratio" -> LET q == CAdd(C1, CMul(x, x)) IN ERnd(CDiv(CSub(C1, CMul(x, x)), CMul(q, q)))
                [] a = "half" -> IF CLt(C0, x) THEN C1 ELSE C0
DenseRate(x, dx, K, dK, db) == Vec(Len(db), LAMBDA j : CAdd(db[j],
     CSum(Vec(Len(x), LAMBDA i : CAdd(CMul(dx[i], K[i][j]), CMul(x[i], dK[i][j]))))))
LayerPair(p, K, b, dK, db) == [v |-> DenseOut(p.v, K, b), r |-> DenseRate(p.v, p.r, K, dK, db)]
ActPair(p, a) == [v |-> Vec(Len(p.v), LAMBDA j : Act(a, p.v[j])), r |-> Vec(Len(p.v), LAMBDA j : ERnd(CMul(p.r[j], ActD(a, p.v[j]))))]
OutPair(x, Ks, bs, dKs, dbs, a) == LET n == Len(Ks)
     h == FoldLeft(LAMBDA acc, k : ActPair(LayerPair(acc, Ks[k], bs[k], dKs[k], dbs[k]), a),
                   [v |-> x, r |-> Vec(Len(x), LAMBDA i : C0)], [k \in 1..(n - 1) |-> k])
  IN LayerPair(h, Ks[n], bs[n], dKs[n], dbs[n])
SuppressedRate(p, first) == LET n == Len(p.v) \div 2
     one(s, y) == CAdd(CMul(CMul(ActD("sigmoid", p.v[s]), p.r[s]), p.v[y]), CMul(Sigmoid(p.v[s]), p.r[y]))
  IN Vec(n, LAMBDA j : IF first THEN one(j, n + j) ELSE one(n + j, j))
(* one unit through layers with unit weights: kept or left out per layer,     *)
(* what is kept grows so that the mean stays (rate: <<>> for none)            *)
UnitVal(x, rates, kept, a) == FoldLeft(LAMBDA acc, k : LET y == Act(a, acc) IN
      IF rates[k] = <<>> THEN y ELSE IF kept[k] THEN CDiv(y, CSub(C1, rates[k][1])) ELSE C0, x, [k \in 1..Len(rates) |-> k])
Masks(rates) == {f \in [1..Len(rates) -> BOOLEAN] : \A k \in 1..Len(rates) : rates[k] = <<>> => f[k]}
(* equal as bags up to tolerance relative to the largest entry *)
BagClose(a, b, t2) == LET s2 == CMax(C1, CMax(MaxAbs2(a), MaxAbs2(b)))
                          near(x, y) == CloseTo(x, y, s2, t2) IN
   /\ Len(a) = Len(b)
   /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(b) : near(b[j], a[i])}) = Cardinality({j \in 1..Len(a) : near(a[j], a[i])})
=============================================================================
