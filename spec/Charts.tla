------------------------------- MODULE Charts -------------------------------
(* Projective points and their affine charts.  A point of P^n is a nonzero  *)
(* vector of n+1 exact numbers up to scale; chart p (0-based) is the set of  *)
(* points with nonzero coordinate p.                                         *)
EXTENDS Lin

InChart(hom, p) == hom[p + 1] # C0
AffOf(hom, p) == Vec(Len(hom) - 1, LAMBDA i : CDiv(hom[IF i <= p THEN i ELSE i + 1], hom[p + 1]))
HomOf(aff, p) == Ins(aff, p + 1, C1)
Rechart(aff, p, q) == AffOf(HomOf(aff, p), q)
SamePoint(a, b) == /\ Len(a) = Len(b)
                   /\ \A i, j \in 1..Len(a) : CMul(a[i], b[j]) = CMul(a[j], b[i])
(* charts allowed when none is requested: those of largest modulus           *)
BestCharts(hom) == {p \in 0..(Len(hom) - 1) : \A q \in 0..(Len(hom) - 1) :
                       CLeq(CAbs2(hom[q + 1]), CAbs2(hom[p + 1]))}
(* the same with a relative margin, for points known only up to rounding     *)
BestChartsTol(hom) == {p \in 0..(Len(hom) - 1) : \A q \in 0..(Len(hom) - 1) :
                       CLeq(CAbs2(hom[q + 1]), CMul(CAbs2(hom[p + 1]), CFrac(1000001, 0, 1000000)))}
(* position of homogeneous coordinate h (# p) in the chart-p vector, back    *)
PosAff(p, h) == IF h > p THEN h - 1 ELSE h
PosHom(p, i) == IF i >= p THEN i + 1 ELSE i

(* State of a conversion history: the representation now held.               *)
(*   [hom |-> the exact point, rep |-> -1 (homogeneous) or the chart,        *)
(*    cur |-> exact coordinates in that representation]                      *)
HomState(h) == [hom |-> h, rep |-> -1, cur |-> h]
DoToAffine(s, p) == [s EXCEPT !.rep = p, !.cur = AffOf(s.cur, p)]
DoToHom(s) == [s EXCEPT !.rep = -1, !.cur = HomOf(s.cur, s.rep)]
DoRechart(s, q) == [s EXCEPT !.rep = q, !.cur = Rechart(s.cur, s.rep, q)]
HomNow(s) == IF s.rep = -1 THEN s.cur ELSE HomOf(s.cur, s.rep)
(* the guarantee *)
PointKept(s) == SamePoint(HomNow(s), s.hom)
Direct(s) == s.rep = -1 \/ s.cur = AffOf(s.hom, s.rep)
=============================================================================
