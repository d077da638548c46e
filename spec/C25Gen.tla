------------------------------- MODULE C25Gen -------------------------------
EXTENDS PolyLib, Describe, VarLib
VARIABLES ph, scn
vars == <<ph, scn>>
(* what is described: a constructed object, or the result of an operation *)
How == <<"made", "sum", "product", "derivative", "scaled", "homogeneous", "affine">>
Deg1(g) == \A k \in 1..Len(g.vs) : ~g.vs[k].sc
(* homogeneous terms: every vector variable to the same total degree 2 *)
HomTerms(g, s) == [k \in 1..3 |-> [c |-> RCoeff(s \o <<k, 3>>),
    m |-> FoldLeft(LAMBDA acc, v : acc \o (LET i == RndI(s \o <<k, Len(acc), 5>>, 1, Len(v.idx)) j == RndI(s \o <<k, Len(acc), 6>>, 1, Len(v.idx)) IN
                       IF i = j THEN <<<<v.name, v.idx[i], 2>>>> ELSE <<<<v.name, v.idx[i], 1>>, <<v.name, v.idx[j], 1>>>>), <<>>, g.vs)
          \o RMon(ParSyms(g), s \o <<k, 2>>, 2)]]
Scn(si, hi, k) == LET g == Shapes[si] how == How[hi] IN
   [op |-> "poly", how |-> how, g |-> g, other |-> Shapes[((si + k) % Len(Shapes)) + 1],
    T |-> IF k = 0 THEN <<>> ELSE IF how \in {"homogeneous", "affine"} THEN HomTerms(g, <<si, hi, k>>) ELSE RTerms(g, <<si, hi, k>>, RndI(<<si, hi, k, 71>>, 1, 5)),
    U |-> RTerms(Shapes[((si + k) % Len(Shapes)) + 1], <<si, hi, k, 2>>, 2), c |-> RCoeff(<<si, hi, k, 9>>),
    sym |-> RndI(<<si, hi, k, 6>>, 0, 20), patch |-> RndI(<<si, hi, k, 7>>, 0, 20), ctor |-> RndOf(<<si, hi, k, 8>>, <<"expr", "str", "arrays">>)]
Compat(g, h) == \A i \in 1..Len(g.vs), j \in 1..Len(h.vs) : g.vs[i].name = h.vs[j].name => g.vs[i].sc = h.vs[j].sc
VScn(vi, k) == [op |-> "variety", v |-> AllVars[vi], lay |-> k, how |-> <<"object", "text", "default", "default text">>[k]]
SubNames == <<"z", "x", "zeta", "psi", "ab", "Q", "w_">>
Init == ph = "pick" /\
  \/ \E si \in 1..Len(Shapes), hi \in 1..Len(How), k \in 0..Pick2(8, 30) :
        /\ (How[hi] \in {"homogeneous", "affine"} => Deg1(Shapes[si]) /\ k > 0)
        /\ (How[hi] \in {"sum", "product"} => Compat(Shapes[si], Shapes[((si + k) % Len(Shapes)) + 1]))
        /\ scn = <<1, si, hi, k>>
  \/ \E vi \in 1..Len(AllVars), k \in 1..4 : (k = 1 \/ AllVars[vi].deg = AllVars[vi].n) /\ (k > 2 => AllVars[vi].n = 5) /\ scn = <<2, vi, k>>
  \/ \E i \in 1..6, k \in {0, 1, 7, 10, 123} : scn = <<3, i, k>>
Next == ph = "pick" /\ ph' = "emit" /\ scn' = CASE scn[1] = 1 -> Scn(scn[2], scn[3], scn[4])
                                               [] scn[1] = 2 -> VScn(scn[2], scn[3])
                                               [] OTHER -> [op |-> "subscript", name |-> SubNames[scn[2]], sub |-> scn[3]]
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the description determines the grouping: distinct symbols have     *)
(* distinct texts, and positions are a numbering                              *)
Injective == ph = "emit" /\ scn.op = "poly" =>
   LET f == Flattened(scn.g) \o scn.g.ps IN
   /\ Cardinality({f[k] : k \in 1..Len(f)}) = Len(f)
   /\ Cardinality(Positions(Names(scn.g))) = Len(scn.g.vs)
=============================================================================
