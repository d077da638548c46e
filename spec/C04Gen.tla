------------------------------- MODULE C04Gen -------------------------------
EXTENDS PolyLib, HomPoly
VARIABLES ph, scn
vars == <<ph, scn>>
HShapes == << G(<<V("z", <<0, 1>>)>>, <<"psi">>), G(<<V("z", <<0, 1, 2>>)>>, <<"psi", "alpha">>),
              G(<<V("z", <<0, 1, 2, 3, 4>>)>>, <<>>), G(<<V("z", <<1, 3, 4>>)>>, <<"alpha">>),
              G(<<V("x", <<0, 1>>), V("y", <<0, 1>>)>>, <<"t">>), G(<<V("x", <<0, 1>>), V("y", <<0, 1, 2>>)>>, <<"t", "psi">>),
              G(<<V("y", <<2, 5, 9>>), V("x", <<0, 4>>)>>, <<>>), G(<<V("x", <<0, 1>>), V("y", <<0, 1>>), V("z", <<0, 1>>)>>, <<"c">>),
              G(<<V("x", <<0, 1, 2>>), V("y", <<0, 1>>), V("z", <<0, 1, 2>>)>>, <<>>) >>
(* a random monomial of degree d in the symbols of a variable *)
RECURSIVE RHom(_, _, _)
RHom(q, s, d) == IF Len(q) = 1 THEN <<<<q[1][1], q[1][2], d>>>>
                 ELSE LET e == RndI(s \o <<d>>, 0, d) IN <<<<q[1][1], q[1][2], e>>>> \o RHom(Tail(q), s \o <<e>>, d - e)
RHomTerm(g, s, deg) == [c |-> RCoeff(s \o <<3>>),
   m |-> SelectSeq(FoldLeft(LAMBDA acc, k : acc \o RHom(VarSyms(g.vs[k]), s \o <<k>>, deg[k]), <<>>, Range0(Len(g.vs))) \o
         RMon(ParSyms(g), s \o <<8>>, 2), LAMBDA t : t[3] > 0)]
RHomPoly(g, s) == LET deg == [k \in 1..Len(g.vs) |-> RndI(s \o <<k, 4>>, 1, 4)]
                      n == RndI(s \o <<5>>, 2, 6) IN [i \in 1..n |-> RHomTerm(g, s \o <<i>>, deg)]
(* built-in families: degree n in n coordinates *)
FamT(n, f) == [k \in 1..n |-> [c |-> <<1, 0, 1>>, m |-> <<<<"z", k - 1, n>>>>]] \o
              (IF f = <<>> THEN <<>> ELSE <<[c |-> f, m |-> Append([k \in 1..n |-> <<"z", k - 1, 1>>], <<"psi", -1, 1>>)]>>)
Fam(n, f) == [g |-> G(<<V("z", [k \in 1..n |-> k - 1])>>, IF f = <<>> THEN <<>> ELSE <<"psi">>), T |-> FamT(n, f)]
Facs == << <<>>, <<-5, 0, 1>>, <<1, 0, 1>>, <<3, 0, 2>>, <<-7, 0, 1>>, <<1, -2, 1>>, <<4, 0, 1>>, <<-1, 0, 1>> >>
Tuples(g) == LET d == Dims(g) IN IF Len(d) = 1 THEN {<<a>> : a \in 0..(d[1] - 1)}
             ELSE IF Len(d) = 2 THEN {<<a, b>> : a \in 0..(d[1] - 1), b \in 0..(d[2] - 1)}
             ELSE {<<a, b, c>> : a \in 0..(d[1] - 1), b \in 0..(d[2] - 1), c \in 0..(d[3] - 1)}
RTuple(g, s) == [k \in 1..Len(g.vs) |-> RndI(s \o <<k, 33>>, 0, Dims(g)[k] - 1)]
Hows == <<"direct", "tuple", "object", "hom", "numpy", "jax", "symbolic">>
Req(g, s) == [how |-> RndOf(s \o <<1>>, Hows), patch |-> RTuple(g, s)]
Common(g, T, fam, n, f, s, lay) ==
  [op |-> "hom", g |-> g, T |-> T, fam |-> fam, n |-> n, f |-> f, lay |-> lay, vals |-> SymVals(g, s),
   reqs |-> [k \in 1..8 |-> Req(g, s \o <<k, 21>>)], bat |-> [b \in 1..6 |-> RTuple(g, s \o <<b, 22>>)],
   all |-> SetToSeq(Tuples(g))]
Scn(kind, a, k) == IF kind = 1 THEN Common(HShapes[a], RHomPoly(HShapes[a], <<a, k>>), "gen", 0, <<>>, <<a, k, 1>>, (k + a) % 8)
   ELSE LET n == 2 + (k % 4) f == Facs[a] w == Fam(n, f) IN
        Common(w.g, w.T, IF f = <<>> THEN "fermat" ELSE "dwork", n, f, <<a, k, 2>>, (k + a) % 8)
Init == ph = "pick" /\ (\/ \E a \in 1..Len(HShapes), k \in 1..Pick2(16, 48) : scn = <<1, a, k>>
                        \/ \E a \in 1..Len(Facs), k \in 1..Pick2(8, 32) : scn = <<2, a, k>>)
Next == ph = "pick" /\ ph' = "emit" /\ scn' = Scn(scn[1], scn[2], scn[3])
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the polynomials are homogeneous in each variable, numbering of     *)
(* patch tuples is a bijection, and the affine value is the homogeneous value *)
(* divided by the power of the patch coordinate                               *)
OneToOne == ph = "emit" => LET S == Tuples(scn.g) IN
   {PatchIndex(scn.g, p) : p \in S} = 0..(Cardinality(S) - 1)
HomLaw == ph = "emit" => IsHom(scn.g, NumTerms(scn.T))
XHom(b) == [k \in 1..Len(scn.g.vs) |-> Vec(Len(scn.g.vs[k].idx), LAMBDA i :
   LET q == SelectSeq(scn.vals, LAMBDA v : v.s = <<scn.g.vs[k].name, scn.g.vs[k].idx[i]>>) IN GNum(q[1].v[b]))]
YPar(b) == Vec(Len(scn.g.ps), LAMBDA i : LET q == SelectSeq(scn.vals, LAMBDA v : v.s = <<scn.g.ps[i], -1>>) IN GNum(q[1].v[b]))
Rescaled == ph = "emit" => LET T == NumTerms(scn.T) x == XHom(1) p == scn.reqs[1].patch
      aff == [k \in 1..Len(x) |-> LET w == x[k][p[k] + 1] IN Vec(Len(x[k]) - 1, LAMBDA i : CDiv(Drop(x[k], p[k] + 1)[i], w))]
      lam == CProd([k \in 1..Len(x) |-> CPow(x[k][p[k] + 1], GroupDeg(T[1], scn.g.vs[k]))])
   IN CMul(lam, CSum(HomVals(scn.g, T, aff, YPar(1), p))) = CSum(HomVals(scn.g, T, x, YPar(1), <<>>))
=============================================================================
