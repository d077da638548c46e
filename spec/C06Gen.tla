------------------------------- MODULE C06Gen -------------------------------
EXTENDS PolyLib
VARIABLES ph, scn
vars == <<ph, scn>>
Kinds == <<"poly", "hom">>
NT(si, k) == IF k = 0 THEN si % 2 ELSE RndI(<<si, k, 71>>, 1, 6)
Terms(si, k) == IF k = 0 /\ si % 2 = 1 THEN <<[c |-> RCoeff(<<si, 91>>), m |-> <<>>]>> ELSE RTerms(Shapes[si], <<si, k, 6>>, NT(si, k))
Zeroed(v, k) == IF k % 3 = 2 THEN [v EXCEPT ![1].v = [b \in 1..6 |-> <<0, 0, 1>>]] ELSE v
Scn(si, k) == [op |-> "dec", g |-> Shapes[si], T |-> Terms(si, k), k |-> k, zero |-> k % 3 = 2, sub |-> (k \div 3) % 2 = 1,
               vals |-> Zeroed(SymVals(Shapes[si], <<si, k, 6>>), k)]
Init == ph = "pick" /\ \E si \in 1..Len(Shapes), k \in 0..Pick2(24, 100) : scn = <<si, k>>
Next == ph = "pick" /\ ph' = "emit" /\ scn' = Scn(scn[1], scn[2])
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the coefficient polynomials in a symbol reassemble *)
Part(T, s, d) == LET S == SelectSeq(T, LAMBDA t : Exp(t.m, s) = d) IN [k \in 1..Len(S) |-> Tm(S[k].c, MonWithout(S[k].m, s))]
RECURSIVE SymPow(_, _)
SymPow(s, d) == IF d = 0 THEN OConst(C1) ELSE <<Tm(C1, {<<s[1], s[2], d>>})>>
Reassemble(T, s) == FoldLeft(LAMBDA acc, d : OAdd(acc, OMul(SymPow(s, d - 1), Part(T, s, d - 1))), <<>>, Range0(4))
Univariate == ph = "emit" => \A i \in 1..Len(GroupSyms(scn.g)) :
   LET T == NumTerms(scn.T) IN Equal(T, Reassemble(T, GroupSyms(scn.g)[i]))
=============================================================================
