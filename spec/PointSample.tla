---------------------------- MODULE PointSample ----------------------------
(* Points sampled on a variety.                                               *)
EXTENDS Variety
(* Q vanishes up to rounding: |Q| small against the largest coefficient times *)
(* the modulus of the point to the power of the degree                        *)
OnVariety(v, h, par, t2) == CLeq(CAbs2(QHom(v, h, par)),
   CMul(t2, CMul(MaxAbs2(Vec(Len(v.T), LAMBDA t : CMul(v.T[t].c, Mon(par, v.T[t].b)))), CPow(MaxAbs2(h), TotalDeg(v.T[1])))))
(* sine squared of the angle between two lines of C^n, times norms *)
Apart2(a, b) == CSub(CMul(Norm2(a), Norm2(b)), CAbs2(Dot(a, VConj(b))))
SameLine(a, b, t2) == CLeq(Apart2(a, b), CMul(t2, CMul(Norm2(a), Norm2(b))))
BigDep(G) == CHOOSE d \in 0..(Len(G) - 1) : \A k \in 1..Len(G) : CLeq(CAbs2(G[k]), CAbs2(G[d + 1]))
PointWeight(v, h, par) == LET p == CHOOSE p \in BestCharts(h) : TRUE
                              z == AffOf(h, p) IN Weight(v, z, par, p, BigDep(GradAff(v, z, par, p)), C1)
(* moments of the uniform distribution on a projective subspace of dimension  *)
(* m - 1: for u in it, E |u.z|^2 = |u|^2/m and E |u.z|^4 = 2|u|^4/(m(m+1))    *)
SphereMoment(m, r) == IF r = 1 THEN CFrac(1, 0, m) ELSE CFrac(2, 0, m * (m + 1))
(* number of tenths below a real number in [0, 1] *)
Tenth(x) == IF CLeq(CFrac(5, 0, 10), x)
            THEN (IF CLeq(CFrac(7, 0, 10), x) THEN (IF CLeq(CFrac(9, 0, 10), x) THEN 9 ELSE IF CLeq(CFrac(8, 0, 10), x) THEN 8 ELSE 7)
                  ELSE IF CLeq(CFrac(6, 0, 10), x) THEN 6 ELSE 5)
            ELSE (IF CLeq(CFrac(3, 0, 10), x) THEN (IF CLeq(CFrac(4, 0, 10), x) THEN 4 ELSE 3)
                  ELSE IF CLeq(CFrac(2, 0, 10), x) THEN 2 ELSE IF CLeq(CFrac(1, 0, 10), x) THEN 1 ELSE 0)
Project(u, nrm) == VSub(u, VScale(CDiv(Dot(u, VConj(nrm)), Norm2(nrm)), nrm))
=============================================================================
