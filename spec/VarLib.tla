------------------------------- MODULE VarLib -------------------------------
(* Varieties used by the generators, in scenario form (coefficients as        *)
(* <<re, im, den>> of machine integers).                                      *)
EXTENDS GenBase, Variety
UnitExp(n, i, d) == [k \in 1..n |-> IF k = i THEN d ELSE 0]
T1(c, a, b) == [c |-> c, a |-> a, b |-> b]
One == <<1, 0, 1>>
FermatT(n, np) == [i \in 1..n |-> T1(One, UnitExp(n, i, n), [j \in 1..np |-> 0])]
VFermat(n) == [kind |-> "fermat", n |-> n, np |-> 0, deg |-> n, T |-> FermatT(n, 0)]
VDwork(n, fac) == [kind |-> IF fac = -5 THEN "dwork" ELSE IF fac = 1 THEN "dwork1" ELSE "poly", n |-> n, np |-> 1, deg |-> n,
                   T |-> Append(FermatT(n, 1), T1(<<fac, 0, 1>>, [i \in 1..n |-> 1], <<1>>))]
(* a quadric with two parameters and complex coefficients *)
VQuad4 == [kind |-> "poly", n |-> 4, np |-> 2, deg |-> 2, T |->
  << T1(<<1, 0, 1>>, <<1, 1, 0, 0>>, <<1, 0>>), T1(<<2, 1, 1>>, <<0, 2, 0, 0>>, <<0, 0>>),
     T1(<<-3, 0, 2>>, <<0, 0, 1, 1>>, <<0, 1>>), T1(<<0, 1, 1>>, <<2, 0, 0, 0>>, <<0, 0>>),
     T1(<<1, 0, 1>>, <<0, 1, 0, 1>>, <<1, 1>>), T1(<<1, -1, 2>>, <<0, 0, 0, 2>>, <<0, 0>>) >>]
(* a plane quartic in which a parameter enters squared *)
VQuart3 == [kind |-> "poly", n |-> 3, np |-> 1, deg |-> 4, T |->
  << T1(<<1, 0, 1>>, <<4, 0, 0>>, <<0>>), T1(<<1, 0, 1>>, <<1, 2, 1>>, <<2>>), T1(<<-2, 0, 1>>, <<0, 1, 3>>, <<0>>),
     T1(<<1, 0, 1>>, <<0, 3, 1>>, <<1>>) >>]
VPlane(n) == [kind |-> "poly", n |-> n, np |-> 1, deg |-> 1, T |->
  [i \in 1..n |-> T1(<<i, 2 - i, 2>>, UnitExp(n, i, 1), <<IF i = 1 THEN 1 ELSE 0>>)]]
(* a cubic curve (Calabi-Yau) with two parameters *)
VCubic3 == [kind |-> "poly", n |-> 3, np |-> 2, deg |-> 3, T |->
  << T1(<<1, 0, 1>>, <<2, 1, 0>>, <<0, 0>>), T1(<<0, 2, 1>>, <<0, 3, 0>>, <<0, 0>>), T1(<<1, 0, 1>>, <<1, 1, 1>>, <<1, 0>>),
     T1(<<-1, 0, 2>>, <<0, 0, 3>>, <<0, 1>>), T1(<<1, 1, 1>>, <<1, 0, 2>>, <<0, 0>>) >>]
(* a quadric threefold in P^4 with three parameters, one coordinate linear *)
VQuad5 == [kind |-> "poly", n |-> 5, np |-> 3, deg |-> 2, T |->
  << T1(<<1, 0, 1>>, <<1, 1, 0, 0, 0>>, <<1, 0, 0>>), T1(<<1, 0, 1>>, <<0, 2, 0, 0, 0>>, <<0, 1, 0>>),
     T1(<<2, 0, 1>>, <<0, 0, 1, 1, 0>>, <<0, 0, 0>>), T1(<<0, -1, 1>>, <<0, 0, 0, 2, 0>>, <<0, 0, 1>>),
     T1(<<1, 0, 1>>, <<0, 0, 0, 1, 1>>, <<0, 0, 0>>), T1(<<1, 0, 1>>, <<0, 0, 0, 0, 2>>, <<1, 1, 0>>) >>]
VQuart4 == [kind |-> "poly", n |-> 4, np |-> 1, deg |-> 4, T |->
  << T1(<<1, 0, 1>>, <<4, 0, 0, 0>>, <<0>>), T1(<<1, 0, 1>>, <<0, 3, 1, 0>>, <<0>>), T1(<<-1, 0, 1>>, <<0, 1, 3, 0>>, <<1>>),
     T1(<<1, 2, 2>>, <<0, 0, 0, 4>>, <<0>>), T1(<<2, 0, 1>>, <<1, 1, 1, 1>>, <<1>>), T1(<<1, 0, 1>>, <<1, 0, 2, 1>>, <<0>>) >>]
(* exact form *)
NumT(T) == [k \in 1..Len(T) |-> [T[k] EXCEPT !.c = GNum(T[k].c)]]
NumV(v) == [n |-> v.n, T |-> TLCEval(NumT(v.T))]
AllVars == << VFermat(3), VDwork(3, -5), VQuad4, VDwork(4, -5), VQuart3, VCubic3, VFermat(4), VDwork(4, 1),
              VQuad5, VQuart4, VPlane(4), VDwork(5, -5), VFermat(5), VPlane(3) >>
RndPoint(n, s) == [i \in 1..n |-> OffG(s \o <<i>>)]
RndPar(np, s) == [i \in 1..np |-> OffG(s \o <<i, 77>>)]
(* the same with some entries zero *)
RndZ(s) == IF RndN(s \o <<55>>, 6) = 0 THEN <<0, 0, 8>> ELSE OffG(s)
RndPointZ(n, s) == [i \in 1..n |-> RndZ(s \o <<i>>)]
RndParZ(np, s) == [i \in 1..np |-> RndZ(s \o <<i, 77>>)]
(* well conditioned: the dependent gradient entry is not tiny *)
DepOk(G, d) == LET a == CAbs2(G[d + 1]) IN a # C0 /\ CLeq(MaxAbs2(G), CMul(CInt(400), a))
(* value of parameter j (entering at most linearly) for which h lies on Q = 0 *)
LinPar(v) == {j \in 1..v.np : /\ \A t \in 1..Len(v.T) : v.T[t].b[j] <= 1
                              /\ \E t \in 1..Len(v.T) : v.T[t].b[j] = 1}
SolvePar(v, h, par, j) == LET N == NumV(v)
                              A == SelectSeq(N.T, LAMBDA t : t.b[j] = 0)
                              B == SelectSeq(N.T, LAMBDA t : t.b[j] = 1)
                              q == [par EXCEPT ![j] = C1]
                          IN [par EXCEPT ![j] = CNeg(CDiv(PEval(A, h, q), PEval(B, h, q)))]
(* parameters such that h lies on the variety: the last linear one is solved *)
OnPar(v, h, par) == SolvePar(v, h, par, PMax(LinPar(v)))
(* batch layouts: sizes of the arguments (points, parameters, patches,        *)
(* dependents); item t of an argument of size k is the one at ((t-1) % k) + 1 *)
LaySizes(lay) == << <<1, 1, 1, 1>>, <<3, 1, 1, 1>>, <<3, 3, 3, 3>>, <<6, 3, 1, 6>>, <<1, 3, 1, 1>>,
                    <<3, 1, 6, 1>>, <<6, 6, 6, 3>>, <<1, 1, 1, 3>> >>[lay + 1]
LayMax(lay) == PMax({LaySizes(lay)[i] : i \in 1..4})
At(items, size, t) == items[((t - 1) % size) + 1]
=============================================================================
