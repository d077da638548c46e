------------------------------- MODULE C03Gen -------------------------------
(* shape x polynomial x constructor x information given to the constructor x  *)
(* batch layout of the compiled evaluation                                    *)
EXTENDS PolyLib
VARIABLES ph, scn
vars == <<ph, scn>>
Ctors == <<"str", "strsub", "expr", "poly", "arrays">>
Opts == <<"none", "names", "pars", "np", "npd", "npi", "nd", "ni", "sym", "symp">>
Renamed(g) == [g EXCEPT !.vs = [k \in 1..Len(g.vs) |-> V(<<"a", "b", "c">>[k], [i \in 1..Len(g.vs[k].idx) |-> i - 1])]]
ShapeOf(si, opt) == Shapes[si]
Terms(si, k) == LET g == Shapes[si] IN
   IF k = 0 THEN (IF si % 2 = 0 THEN <<>> ELSE <<[c |-> RCoeff(<<si, 91>>), m |-> <<>>]>>)      \* zero or constant
   ELSE RTerms(g, <<si, k>>, RndI(<<si, k, 71>>, 1, 5))
Appears(T, v) == \E i \in 1..Len(VarSyms(v)) : VarSyms(v)[i] \in Support(NumTerms(T))
Ranges(v) == ~v.sc /\ \A i \in 1..Len(v.idx) : v.idx[i] = i - 1
Valid(si, k, ctor, opt) ==
  LET g == Shapes[si] T == Terms(si, k)
      given == opt \in {"npd", "npi", "nd", "ni", "sym", "symp"}
  IN /\ (opt \in {"names", "np"} \/ (opt = "pars")) => \A j \in 1..Len(g.vs) : Appears(T, g.vs[j])
     /\ opt = "none" => /\ \A j \in 1..Len(g.vs) : Appears(T, g.vs[j])
                        /\ Pos1(g.ps, "a_1") = 0
     /\ opt \in {"npd", "nd"} => \A j \in 1..Len(g.vs) : Ranges(g.vs[j])
     /\ ctor = "arrays" => opt \in {"npi", "ni", "npd", "nd"} /\ Len(T) > 0
     /\ ~given => Len(T) > 0
     /\ k = 0 => given
     (* names with another meaning in strings must be declared *)
     /\ ctor \in {"str", "strsub"} =>
          /\ (\E i \in 1..Len(g.ps) : g.ps[i] \in Reserved) => opt \in {"pars", "np", "npd", "npi", "symp"}
          /\ (\E i \in 1..Len(g.vs) : g.vs[i].sc /\ g.vs[i].name \in Reserved) => opt \notin {"none", "pars"}
Scn(si, k, ci, oi) == [op |-> "poly", g |-> Shapes[si], T |-> Terms(si, k), ctor |-> Ctors[ci], opt |-> Opts[oi],
                       nest |-> (si + k + oi + ci) % 2 = 0,
                       lay |-> (3 * k + oi + ci + si) % 8, vals |-> SymVals(Shapes[si], <<si, k, ci, oi>>)]
Init == ph = "pick" /\ \E si \in 1..Len(Shapes), k \in 0..Pick2(2, 7), ci \in 1..Len(Ctors), oi \in 1..Len(Opts) :
          scn = <<si, k, ci, oi>>
Next == ph = "pick" /\ ph' = "emit" /\ Valid(scn[1], scn[2], Ctors[scn[3]], Opts[scn[4]])
        /\ scn' = Scn(scn[1], scn[2], scn[3], scn[4])
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: collecting terms changes neither value nor support, and evaluation *)
(* through the grouping binds every symbol                                    *)
Val1(s) == LET q == SelectSeq(scn.vals, LAMBDA v : v.s = s) IN GNum(q[1].v[1])
SameValue == ph = "emit" => OEval(NumTerms(scn.T), Val1) = OEval(AsSeq(NumTerms(scn.T)), Val1)
AllBound == ph = "emit" => PolySyms(NumTerms(scn.T)) \subseteq Bound(scn.g)
=============================================================================
