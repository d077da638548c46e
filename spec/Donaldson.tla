----------------------------- MODULE Donaldson -----------------------------
(* One step of the balanced-metric iteration on a recorded sample.            *)
(* A sample is a sequence of points [z |-> affine coordinates, p |-> patch,   *)
(* w |-> weight (NaN: does not contribute)].                                  *)
EXTENDS Variety, Sections
HermPart(H) == Mat(Rows(H), Rows(H), LAMBDA i, j : CDiv(CAdd(H[i][j], CConj(H[j][i])), CInt(2)))
RB == 170
(* section products of one point, divided by the current density *)
PointT(pm, H, x) == LET s == SecAff(pm, x.z, x.p)
                        den == CRe(Dot(s, MVec(H, VConj(s))))
                        c == CRound(CDiv(x.w, den), RB)
                    IN Mat(Len(s), Len(s), LAMBDA a, b : CRound(CMul(c, CMul(s[a], CConj(s[b]))), RB))
BalancedT(pm, H, sample, vol) ==
  LET ok == SelectSeq(sample, LAMBDA x : x.w # NaN)
      Hh == HermPart(H)
      zero == Mat(Len(pm), Len(pm), LAMBDA i, j : C0)
      sum == FoldLeft(LAMBDA acc, x : MAdd(acc, PointT(pm, Hh, x)), zero, ok)
  IN MScale(CRound(CDiv(CInt(Len(pm)), CMul(vol, CInt(Len(sample)))), RB), sum)
(* R is the inverse transpose of T up to rounding *)
IsInvT(R, T, t2) == LET N == Len(T) P == MMul(MT(R), T)
                        sc == CMul(CInt(N * N), CMul(MaxAbs2(Flat(R)), MaxAbs2(Flat(T)))) IN
   \A i, j \in 1..N : CLeq(CAbs2(CSub(P[i][j], IF i = j THEN C1 ELSE C0)), CMul(t2, sc))
=============================================================================
