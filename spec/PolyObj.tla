------------------------------- MODULE PolyObj -------------------------------
(* Polynomial objects: a polynomial over named symbols together with the      *)
(* grouping of its symbols into input variables and parameters.               *)
(* A symbol is <<name, subscript>> (subscript -1: none).  A monomial is the   *)
(* set of <<name, subscript, exponent>> with positive exponents.  A           *)
(* polynomial is a sequence of terms [c |-> number, m |-> monomial].          *)
(* A grouping is [vs |-> sequence of [name, sc, idx], ps |-> names]; sc tells *)
(* that the variable is a scalar.                                             *)
EXTENDS Lin
SymsOf(m) == {<<t[1], t[2]>> : t \in m}
Exp(m, s) == IF \E t \in m : t[1] = s[1] /\ t[2] = s[2] THEN (CHOOSE t \in m : t[1] = s[1] /\ t[2] = s[2])[3] ELSE 0
MonMul(a, b) == {<<s[1], s[2], Exp(a, s) + Exp(b, s)>> : s \in SymsOf(a) \cup SymsOf(b)}
MonWithout(m, s) == {t \in m : ~(t[1] = s[1] /\ t[2] = s[2])}
MonWith(m, s, e) == MonWithout(m, s) \cup (IF e = 0 THEN {} ELSE {<<s[1], s[2], e>>})
PolySyms(T) == UNION {SymsOf(T[k].m) : k \in 1..Len(T)}
Tm(c, m) == [c |-> c, m |-> m]
OAdd(S, T) == S \o T
ONeg(T) == [k \in 1..Len(T) |-> Tm(CNeg(T[k].c), T[k].m)]
OMul(S, T) == TLCEval(FoldLeft(LAMBDA acc, i : acc \o [k \in 1..Len(T) |-> Tm(CMul(S[i].c, T[k].c), MonMul(S[i].m, T[k].m))],
                       <<>>, [i \in 1..Len(S) |-> i]))
OScale(c, T) == [k \in 1..Len(T) |-> Tm(CMul(c, T[k].c), T[k].m)]
OSym(s) == <<Tm(C1, {<<s[1], s[2], 1>>})>>
OConst(c) == <<Tm(c, {})>>
ODiff(T, s) == LET S == SelectSeq(T, LAMBDA t : Exp(t.m, s) > 0) IN
   [k \in 1..Len(S) |-> Tm(CMul(CInt(Exp(S[k].m, s)), S[k].c), MonWith(S[k].m, s, Exp(S[k].m, s) - 1))]
(* set of <<monomial, coefficient>>, zeros dropped *)
Mons(T) == {T[k].m : k \in 1..Len(T)}
CoeffOf(T, m) == CSum(LET S == SelectSeq(T, LAMBDA t : t.m = m) IN [k \in 1..Len(S) |-> S[k].c])
Collected(T) == {x \in {<<m, CoeffOf(T, m)>> : m \in Mons(T)} : x[2] # C0}
AsSeq(T) == LET q == SetToSeq(Collected(T)) IN [k \in 1..Len(q) |-> Tm(q[k][2], q[k][1])]
Support(T) == UNION {SymsOf(x[1]) : x \in Collected(T)}
Equal(S, T) == Collected(S) = Collected(T)
(* equal up to rounding of the coefficients *)
Nearly(S, T, t2) == LET sc == CMax(MaxAbs2([k \in 1..Len(T) |-> T[k].c]), MaxAbs2([k \in 1..Len(S) |-> S[k].c])) IN
   \A m \in Mons(S) \cup Mons(T) : CLeq(CAbs2(CSub(CoeffOf(S, m), CoeffOf(T, m))), CMul(t2, sc))
(* value, with the symbols read by val(name, subscript) *)
TermVal(t, val(_)) == LET q == SetToSeq(t.m) IN
   CMul(t.c, CProd([k \in 1..Len(q) |-> CPow(val(<<q[k][1], q[k][2]>>), q[k][3])]))
OVals(T, val(_)) == Vec(Len(T), LAMBDA k : TermVal(T[k], val))
OEval(T, val(_)) == CSum(OVals(T, val))
(* ------------------------------------------------------------ groupings *)
Pos1(seq, x) == IF \E k \in 1..Len(seq) : seq[k] = x THEN CHOOSE k \in 1..Len(seq) : seq[k] = x ELSE 0
VarNames(g) == [k \in 1..Len(g.vs) |-> g.vs[k].name]
VarSyms(v) == IF v.sc THEN <<<<v.name, -1>>>> ELSE [k \in 1..Len(v.idx) |-> <<v.name, v.idx[k]>>]
Bound(g) == UNION {{VarSyms(g.vs[k])[i] : i \in 1..Len(VarSyms(g.vs[k]))} : k \in 1..Len(g.vs)}
            \cup {<<g.ps[k], -1>> : k \in 1..Len(g.ps)}
(* value of symbol s when variable k gets the vector x[k] and the parameters y *)
Bind(g, x, y, s) ==
  LET vk == {k \in 1..Len(g.vs) : Pos1(VarSyms(g.vs[k]), s) > 0} IN
  IF vk # {} THEN LET k == CHOOSE k \in vk : TRUE IN x[k][Pos1(VarSyms(g.vs[k]), s)]
  ELSE LET p == Pos1(g.ps, s[1]) IN IF s[2] = -1 /\ p > 0 THEN y[p] ELSE NaN
(* union of the groupings, first appearances first, subscripts ascending *)
SortInts(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Asc(v) == SortInts({v.idx[k] : k \in 1..Len(v.idx)})
MergeVar(v, w) == IF v.sc THEN v ELSE [v EXCEPT !.idx = SortInts({v.idx[k] : k \in 1..Len(v.idx)} \cup {w.idx[k] : k \in 1..Len(w.idx)})]
AddVar(vs, w) == LET p == Pos1([k \in 1..Len(vs) |-> vs[k].name], w.name) IN
   IF p = 0 THEN Append(vs, w) ELSE [vs EXCEPT ![p] = MergeVar(vs[p], w)]
AddPar(ps, q) == IF Pos1(ps, q) > 0 THEN ps ELSE Append(ps, q)
Union2(g, h) == [vs |-> FoldLeft(AddVar, g.vs, h.vs), ps |-> FoldLeft(AddPar, g.ps, h.ps)]
(* with a single symbol: a known variable gains the subscript, anything else  *)
(* becomes a parameter                                                        *)
WithSym(g, s) == IF s[2] = -1 /\ Pos1(g.ps, s[1]) > 0 THEN g
   ELSE IF Pos1(VarNames(g), s[1]) > 0 THEN [g EXCEPT !.vs = AddVar(@, [name |-> s[1], sc |-> s[2] = -1, idx |-> IF s[2] = -1 THEN <<>> ELSE <<s[2]>>])]
   ELSE [g EXCEPT !.ps = Append(@, s[1])]
=============================================================================
