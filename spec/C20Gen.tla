------------------------------- MODULE C20Gen -------------------------------
EXTENDS GenBase, HNet
VARIABLES scn
vars == <<scn>>
PowerSets == <<<<2>>, <<2, 4, 6>>, <<4, 2>>, <<2, 2, 6>>, <<1, 2>>, <<0, 2>>, <<2, -2>>, <<6>>>>
W(s) == LET g == NzG(s) IN <<IF g[1] < 0 THEN -g[1] ELSE IF g[1] = 0 THEN 3 ELSE g[1], g[2], 8>>   \* Re w > 0
Ws(m, k) == [b \in 1..3 |-> [i \in 1..m |->
    IF k % 5 = 4 /\ b = 1 /\ i = 1 THEN <<0, 0, 1>>
    ELSE IF k % 5 = 2 /\ b = 2 THEN <<RndI(<<m, k, b, i>>, 1, 9), 0, 8>>      \* positive real modulus
    ELSE IF k % 5 = 3 /\ b = 2 THEN LET r == RndI(<<m, k, b, i>>, 1, 9) IN <<r, r, 8>>
    ELSE W(<<m, k, b, i>>)]]
NonNeg(pw) == \A i \in 1..Len(pw) : pw[i] >= 0
Init ==
  \/ \E m \in 1..Pick2(2, 3), pi \in 1..Len(PowerSets), k \in 1..Pick2(5, 10), form \in {"single", "batch"} :
       /\ NonNeg(PowerSets[pi]) \/ (k + 11 * pi) % 5 # 4
       /\ m = 3 => Len(PowerSets[pi]) < 3
       /\ scn = [op |-> "features", m |-> m, hp |-> PowerSets[pi], ws |-> Ws(m, k + 11 * pi), form |-> form]
  \/ \E m \in 1..2, bs \in {1, 2, 4}, li \in 1..3, sig \in BOOLEAN, sw \in 1..7, k \in 1..Pick2(1, 3) :
       scn = [op |-> "init", m |-> m, bs |-> bs, layers |-> <<<<>>, <<3>>, <<5, 4>>>>[li], sig |-> sig, sw |-> sw,
              fl |-> RndI(<<m, bs, li, sw, k>>, 0, 2), def |-> RndI(<<m, bs, li, sw, k, 2>>, 0, 1) = 1, ws |-> Ws(m, sw + 7 * k), key |-> RndI(<<m, bs, li, sw, k, 1>>, 0, 30000)]
  \/ \E m \in 1..2, bs \in {1, 2, 3}, li \in 1..3, sig \in BOOLEAN, drop \in BOOLEAN, k \in 1..Pick2(1, 4) :
       scn = [op |-> "maps", m |-> m, bs |-> bs, layers |-> <<<<>>, <<4>>, <<6, 5>>>>[li], sig |-> sig, drop |-> drop,
              ws |-> Ws(m, 5 * k + bs), key |-> RndI(<<m, bs, li, k, 3>>, 0, 30000)]
  \/ \E m \in 1..2, li \in 1..4, sig \in BOOLEAN, ai \in 1..4, k \in 1..Pick2(1, 3) :
       LET ls == <<<<>>, <<5>>, <<5, 3>>, <<3, 5, 2>>>>[li] IN
       scn = [op |-> "layers", def |-> FALSE, m |-> m, layers |-> ls, sig |-> sig, act |-> <<"sigmoid", "square", "ratio", "half">>[ai], hp |-> <<2, 4>>,
              ws |-> Ws(m, 5 * k + ai), angle |-> (k + ai) % 2 = 0, num |-> [i \in 1..60 |-> RndI(<<m, li, ai, k, i>>, -9, 9)]]
  \/ \E m \in 1..2, li \in 2..4, k \in 1..Pick2(1, 2) :      \* nothing but the sizes is chosen
       scn = [op |-> "layers", def |-> TRUE, m |-> m, layers |-> <<<<>>, <<5>>, <<5, 3>>, <<3, 5, 2>>>>[li], sig |-> TRUE, act |-> "sigmoid", hp |-> <<2, 4, 6>>,
              ws |-> Ws(m, 5 * k), angle |-> TRUE, num |-> [i \in 1..60 |-> RndI(<<m, li, k, i>>, -9, 9)]]
  \/ \E n \in 1..Pick2(2, 3) : \E rs \in [1..n -> {0, 2, 4}], ai \in {"square"} :
       scn = [op |-> "dropout", rates |-> rs, layers |-> [k \in 1..n |-> 9 + ((k * (1 + rs[1]) + rs[n]) % 5)],      \* at least nine units, of which nine are used
               act |-> ai, ws |-> Ws(1, 3 + n + rs[1]), keys |-> IF n = 3 THEN 48 ELSE 24, key |-> RndI(<<n, rs[1]>>, 0, 30000)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emitted == Emit(scn)
(* number of features and consistency of parts with modulus *)
Counts == scn.op = "features" =>
   LET ws == GVec(scn.ws[2]) n == Cardinality(PowSet(scn.hp))
       ps == Products(ws, scn.hp)
   IN /\ Len(ps) = (IF scn.m = 1 THEN n ELSE IF scn.m = 2 THEN n * n ELSE n * n * n) - 1
      /\ Len(PartFeatures(ws, scn.hp)) = 2 * Len(ps)
      /\ Len(AnglePhases(ws)) = scn.m
PhaseUnit == scn.op = "features" => \A i \in 1..scn.m :
   LET p == AnglePhases(GVec(scn.ws[2]))[i] IN CLeq(CAbs2(CSub(CAbs2(p), C1)), Tenm(24))
(* leaving units out does not change the mean over all choices                *)
RateOf(r) == IF r = 0 THEN <<>> ELSE <<CFrac(1, 0, r)>>
Prob(rates, f) == CProd([k \in 1..Len(rates) |-> IF rates[k] = <<>> THEN C1 ELSE IF f[k] THEN CSub(C1, rates[k][1]) ELSE rates[k][1]])
MeanKept == scn.op = "dropout" =>
   LET rates == [k \in 1..Len(scn.rates) |-> RateOf(scn.rates[k])] x == CFrac(3, 0, 7)
       last == rates[Len(rates)]
       fs == SetToSeq(Masks(<<last>>))
   IN CSum([i \in 1..Len(fs) |-> CMul(Prob(<<last>>, fs[i]), UnitVal(x, <<last>>, fs[i], scn.act))]) = Act(scn.act, x)
ExpLaws == scn.op = "layers" => LET x == CFrac(scn.num[1], 0, 8) IN
   /\ CloseTo(Ln(Exp(x)), x, C1, Tenm(40)) /\ CloseTo(CMul(Exp(x), Exp(CNeg(x))), C1, C1, Tenm(60))
   /\ CloseTo(CAdd(Sigmoid(x), Sigmoid(CNeg(x))), C1, C1, Tenm(60))
=============================================================================
