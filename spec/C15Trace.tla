------------------------------ MODULE C15Trace ------------------------------
EXTENDS TraceBase, Donaldson
(* st: the matrix the next step starts from, and the last step's result data *)
(* and how much rounding may be amplified in it                              *)
S0(t) == [H |-> <<>>, last |-> <<>>, amp |-> C1]
TH == Tenm(18)
(* square of the condition number, roughly *)
Amp(R, T) == CMax(C1, CRound(CMul(CInt(Len(T) * Len(T)), CMul(MaxAbs2(Flat(R)), MaxAbs2(Flat(T)))), 40))
Alike(a, b, t2, amp) == LET s2 == CMul(CMax(MaxAbs2(b), Floor2), CMul(t2, amp)) IN
   Len(a) = Len(b) /\ \A i \in 1..Len(a) : CLeq(CAbs2(CSub(a[i], b[i])), s2)
Mtx(data, N) == [i \in 1..N |-> SubSeq(data, (i - 1) * N + 1, i * N)]
All(bs) == FoldLeft(LAMBDA acc, b : acc \o b, <<>>, bs)
JDo(e, s) ==
  LET N == Len(e.pm)
      smp == All(e.batches)
      R == Mtx(e.out.data, N)
      T == BalancedT(e.pm, e.H, smp, e.vol)
      (* fewer contributing points than sections: the average has no inverse *)
      few == Cardinality({i \in 1..Len(smp) : smp[i].w # NaN}) < N
  IN IF e.out.err # "" THEN "raised " \o e.out.err
     ELSE IF e.out.shape # <<N, N>> THEN "shape"
     ELSE IF s.H # <<>> /\ e.H # s.H THEN "harness: history broken"
     ELSE IF Len(e.batches) # e.nb THEN "number of batches"
     ELSE IF \E b \in 1..e.nb : Len(e.batches[b]) # e.size THEN "batch size"
     ELSE IF \E i, j \in 1..Len(smp) : i < j /\ smp[i].z = smp[j].z THEN "batches share points"
     ELSE IF few THEN "ok"
     ELSE IF \E i \in 1..Len(e.out.data) : e.out.data[i] = NaN THEN "non-finite value"
     ELSE IF ~Alike(Flat(R), Flat(MH(R)), Tenm(24), Amp(R, T)) THEN "not Hermitian"
     ELSE IF ~IsInvT(R, T, TH) THEN "not the inverse transpose of the weighted average"
     ELSE "ok"
After(e) == LET smp == All(e.batches) IN
   IF Cardinality({i \in 1..Len(smp) : smp[i].w # NaN}) < Len(e.pm) THEN [H |-> <<>>, last |-> <<>>, amp |-> C1]
   ELSE [H |-> Mtx(e.out.data, Len(e.pm)), last |-> e.out.data,
         amp |-> Amp(Mtx(e.out.data, Len(e.pm)), BalancedT(e.pm, e.H, smp, e.vol))]
(* the same step again (repeat), or with another skew part: same result *)
JAgain(e, s) == IF e.out.err # "" THEN "raised " \o e.out.err
   ELSE IF s.last = <<>> THEN "ok"
   ELSE IF Alike(e.out.data, s.last, Tenm(23), s.amp) THEN "ok" ELSE "result changed"
JStep(e, s) == IF e.op = "step" THEN LET r == JDo(e, s) IN
                    [v |-> r, st |-> IF r = "ok" THEN After(e) ELSE s]
               ELSE [v |-> LET r == JAgain(e, s) IN IF r = "ok" THEN r ELSE e.fn \o ": " \o r, st |-> s]
=============================================================================
