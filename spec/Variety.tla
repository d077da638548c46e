------------------------------ MODULE Variety ------------------------------
(* Hypersurface Q = 0 of projective space: gradients in a patch, embedding    *)
(* Jacobian, pullbacks, volume densities.  A variety is [n |-> number of      *)
(* homogeneous coordinates, T |-> terms of Q].  Patches and dependent         *)
(* coordinates are 0-based positions.                                         *)
EXTENDS Poly, FubiniStudy
QHom(v, h, par) == PEval(v.T, h, par)
QAff(v, z, par, p) == PEval(v.T, HomOf(z, p), par)
GradHom(v, h, par) == PGrad(v.T, h, par)
GradAff(v, z, par, p) == Drop(PGrad(v.T, HomOf(z, p), par), p + 1)
(* antiholomorphic gradient as a function of independent conjugate coordinates *)
GradAffC(v, zc, par, p) == VConj(GradAff(v, VConj(zc), par, p))
ArgMaxTol(G) == {d \in 0..(Len(G) - 1) : \A k \in 1..Len(G) :
                   CLeq(CAbs2(G[k]), CMul(CAbs2(G[d + 1]), CFrac(1000001, 0, 1000000)))}
(* rows: local coordinates (all but the dependent one); columns: ambient *)
EmbedJac(G, d) == LET m == Len(G)
                      amb(k) == IF k <= d THEN k ELSE k + 1 IN
   Mat(m - 1, m, LAMBDA k, j : IF j = d + 1 THEN CNeg(CDiv(G[amb(k)], G[d + 1]))
                               ELSE IF j = amb(k) THEN C1 ELSE C0)
Induced(g, G, Gc, d) == MMul(EmbedJac(G, d), MMul(g, MT(EmbedJac(Gc, d))))
InducedR(g, G, d) == Induced(g, G, VConj(G), d)
RECURSIVE FactI(_)
FactI(n) == IF n = 0 THEN 1 ELSE n * FactI(n - 1)
(* the two volume densities; vol = <<>> : without normalisation *)
DVol(v, z, par, p, d, vol) == LET G == GradAff(v, z, par, p) IN
   CMul(IF vol = <<>> THEN C1 ELSE vol, CDiv(C1, CAbs2(G[d + 1])))
DFs(v, z, par, p, d, vol) ==
   LET G == GradAff(v, z, par, p)
       m == v.n - 2
       det == CRe(Det(InducedR(FSMetric(z, VConj(z)), G, d)))
   IN IF vol = <<>> THEN det ELSE CDiv(CMul(CInt(FactI(m)), det), CRound(CPow(PI, m), 90))
Weight(v, z, par, p, d, vol) == CDiv(DVol(v, z, par, p, d, vol), DFs(v, z, par, p, d, vol))
(* the same determinant from the inverse metric: det (J g J^H) =               *)
(* det g  sum_ij g^-1_ij conj(G_i) G_j / |G_d|^2                              *)
DetByCofactor(g, G, d) == LET gi == Inv(g) IN
   CDiv(CMul(Det(g), Dot(VConj(G), MVec(gi, G))), CAbs2(G[d + 1]))
=============================================================================
