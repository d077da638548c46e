------------------------------- MODULE PolyLib -------------------------------
(* Shapes and pseudo-random polynomials for the generators, in scenario form  *)
(* (terms [c |-> <<re, im, den>>, m |-> sequence of <<name, subscript, exp>>]). *)
EXTENDS GenBase, PolyObj
V(name, idx) == [name |-> name, sc |-> FALSE, idx |-> idx]
Sc(name) == [name |-> name, sc |-> TRUE, idx |-> <<>>]
G(vs, ps) == [vs |-> vs, ps |-> ps]
Shapes == << G(<<V("z", <<0, 1, 2>>)>>, <<"psi", "alpha">>),
             G(<<V("x", <<0, 1>>), V("y", <<0, 1, 2>>)>>, <<"t">>),
             G(<<Sc("x"), V("z", <<1, 3, 4>>)>>, <<"psi", "alpha">>),
             G(<<V("z", <<0, 1>>)>>, <<>>),
             G(<<Sc("y"), Sc("x")>>, <<"a">>),
             G(<<V("z", <<2, 10>>)>>, <<"tau", "alpha", "b">>),
             G(<<V("u", <<0, 1, 2, 3>>)>>, <<"a_1">>),
             G(<<V("z", <<0>>), Sc("w")>>, <<>>),
             G(<<V("y", <<0, 1>>), V("x", <<0, 1>>), V("z", <<0, 1>>)>>, <<"tau", "c">>),
             G(<<V("z", <<0, 1, 2>>)>>, <<"E", "beta">>),          \* names with a meaning to the parser
             G(<<Sc("N"), V("zeta", <<0, 1>>)>>, <<"S">>) >>
Reserved == {"E", "S", "N", "beta", "zeta"}
GroupSyms(g) == FoldLeft(LAMBDA acc, v : acc \o VarSyms(v), <<>>, g.vs)
ParSyms(g) == [k \in 1..Len(g.ps) |-> <<g.ps[k], -1>>]
(* exponents are sparse: about half of them zero *)
RExp(s, hi) == IF RndN(s \o <<1>>, 9) < 4 THEN 0 ELSE RndI(s \o <<2>>, 1, hi)
RMon(syms, s, hi) == LET q == [k \in 1..Len(syms) |-> <<syms[k][1], syms[k][2], RExp(s \o <<k>>, hi)>>] IN
   SelectSeq(q, LAMBDA t : t[3] > 0)
RCoeff(s) == LET g == NzG(s) IN CASE RndN(s \o <<5>>, 4) = 0 -> <<IF g[1] = 0 THEN 3 ELSE g[1], 0, 1>>
                                  [] RndN(s \o <<5>>, 4) = 1 -> <<IF g[1] = 0 THEN -5 ELSE g[1], 0, 8>>
                                  [] RndN(s \o <<5>>, 4) = 2 -> <<0, IF g[2] = 0 THEN 1 ELSE g[2], 1>>
                                  [] OTHER -> g
RTerms(g, s, n) == [k \in 1..n |-> [c |-> RCoeff(s \o <<k, 3>>),
     m |-> RMon(GroupSyms(g), s \o <<k, 1>>, 3) \o RMon(ParSyms(g), s \o <<k, 2>>, 2)]]
NumTerms(T) == [k \in 1..Len(T) |-> Tm(GNum(T[k].c), {T[k].m[i] : i \in 1..Len(T[k].m)})]
SymVals(g, s) == LET q == GroupSyms(g) \o ParSyms(g) IN
   [k \in 1..Len(q) |-> [s |-> q[k], v |-> [b \in 1..6 |-> OffG(s \o <<k, b, 9>>)]]]
=============================================================================
