----------------------------- MODULE MixedSecs -----------------------------
(* Sections given as linear combinations t = A s of the monomials s. The      *)
(* ansatz with t and H is the ansatz with s and A^T H conj(A).                *)
EXTENDS AlgMetric, Donaldson
EffH(A, H) == MMul(MT(A), MMul(H, MConj(A)))
MixAff(A, pm, z, p) == MVec(A, SecAff(pm, z, p))
(* average of the products of the combined sections *)
MixT(A, pm, H, sample, vol) ==
   MScale(CDiv(CInt(Rows(A)), CInt(Len(pm))), MMul(A, MMul(BalancedT(pm, EffH(A, HermPart(H)), sample, vol), MH(A))))
=============================================================================
