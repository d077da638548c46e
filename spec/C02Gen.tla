------------------------------- MODULE C02Gen -------------------------------
(* Data classes for the Fubini-Study formulas and the mixed Hessian.          *)
(* Invariants: closed form = definition, covariance under chart changes.      *)
EXTENDS GenBase, FubiniStudy
VARIABLES scn, z, p, q
vars == <<scn, z, p, q>>
Dims == 1..Pick2(4, 6)
Reps == Pick2(3, 8)
Pts(n, k) == [b \in 1..6 |-> [i \in 1..n |->
    LET g == OffG(<<n, k, b, i>>) IN
    CASE k % 3 = 1 -> g
      [] k % 3 = 2 -> IF RndN(<<n, k, b, i, 3>>, 3) = 0 THEN <<0, 0, 1>> ELSE <<g[1], g[2], 1>>
      [] OTHER -> IF k > 3 THEN <<g[1], 0, 4>> ELSE g]]
PtsC(n, k) == [b \in 1..6 |-> [i \in 1..n |-> RndG(<<n, k, b, i, 55>>)]]
Safe(zs, cs) == \A b \in 1..6 : FSNorm(GVec(zs[b]), GVec(cs[b])) # C0 /\ Dot(GVec(zs[b]), GVec(cs[b])) # C0
                /\ Dot(GVec(zs[b]), VConj(GVec(zs[b]))) # C0
FsScn(n, k, sh, cm, pr) ==
   [op |-> "fs", n |-> n, zs |-> Pts(n, k), zc |-> PtsC(n, k), shape |-> sh, conj |-> cm, prec |-> pr]
Shapes == <<<<>>, <<1>>, <<3>>, <<2, 3>>, <<2, 1, 2>>>>
RndTerm(n, s) == [c |-> RndG(s \o <<1>>), a |-> [i \in 1..n |-> RndI(s \o <<2, i>>, 0, 3)],
                  b |-> [i \in 1..n |-> RndI(s \o <<3, i>>, 0, 3)]]
Init ==
  \/ \E n \in Dims, k \in 1..Reps, si \in 1..5, cm \in {"implied", "explicit", "independent"} :
       /\ Safe(Pts(n, k), PtsC(n, k))
       /\ scn = FsScn(n, k, Shapes[si], cm, IF k = 1 /\ si = 3 THEN "single" ELSE "double")
       /\ z = GVec(Pts(n, k)[1]) /\ p \in {RndI(<<n, k, si, 4>>, 0, n)} /\ q \in 0..n
       /\ InChart(HomOf(z, p), q)
  \/ \E n \in Dims, k \in 1..Pick2(4, 12), zi \in 0..3, ci \in 0..3 :
       /\ zi # ci
       /\ scn = [op |-> "hess", n |-> n, zi |-> zi, ci |-> ci, nargs |-> 4,
                 z |-> Pts(n, k)[1], zc |-> PtsC(n, k)[2], t |-> RndI(<<n, k, zi, ci>>, 1, 9), which |-> "poly",
                 terms |-> [j \in 1..3 |-> RndTerm(n, <<n, k, zi, ci, j>>)]]
       /\ z = GVec(Pts(n, k)[1]) /\ p = 0 /\ q = 0
  \/ \E n \in Dims, k \in 1..Reps, ind \in BOOLEAN :
       /\ Safe(Pts(n, k), PtsC(n, k))
       /\ scn = [op |-> "hess", n |-> n, zi |-> 0, ci |-> 1, nargs |-> 2, which |-> "fs", ind |-> ind,
                 z |-> Pts(n, k)[1], zc |-> PtsC(n, k)[1], t |-> 1, terms |-> <<>>]
       /\ z = GVec(Pts(n, k)[1]) /\ p = 0 /\ q = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emitted == Emit(scn)
ClosedForm == FSMetric(z, VConj(z)) = FSMetricDef(z, VConj(z))
Covariant == InChart(HomOf(z, p), q) => FSCovariant(z, p, q)
HermitianForm == FSMetric(z, VConj(z)) = MH(FSMetric(z, VConj(z)))
=============================================================================
