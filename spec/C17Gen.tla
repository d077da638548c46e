------------------------------- MODULE C17Gen -------------------------------
EXTENDS AlgLib, Integration
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == SubSeq(AllVars, 1, 13)
Fns == <<"one", "lin", "sq", "cplx", "vec", "cvec", "mat">>
Wts == <<"pos", "signed">>
Plain(fi, c, m, r) == LET q == <<fi, c, m, r, 41>> IN
   [op |-> "one", fn |-> Fns[fi], count |-> c, m |-> m, key |-> RndI(q, 0, 30000), wt |-> Wts[1 + (r % 2)],
    pts |-> IF (r + c) % 3 = 0 THEN "tuple" ELSE "plain", jit |-> (r + fi) % 2 = 0]
Batched(fi, b, c, m, r) == LET q == <<fi, b, c, m, r, 43>> IN
   [op |-> "batched", fn |-> Fns[fi], batches |-> b, count |-> c, m |-> m, key |-> RndI(q, 0, 30000), wt |-> Wts[1 + ((r + b) % 2)],
    pts |-> IF (r + c + b) % 3 = 0 THEN "tuple" ELSE "plain", jit |-> (r + fi) % 2 = 0]
Vol(vi, b, c, r) == LET q == <<vi, b, c, r, 47>> v == Vs[vi] IN
   [op |-> "vol", v |-> v, batches |-> b, count |-> c, key |-> RndI(q, 0, 30000), par |-> RndPar(v.np, q), jit |-> (r + vi) % 2 = 0]
Init == ph = "pick" /\
   \/ \E fi \in 1..Len(Fns), c \in 1..Pick2(4, 6), m \in 1..3, r \in 1..Pick2(1, 3) : scn = <<1, fi, c, m, r>>
   \/ \E fi \in 1..Len(Fns), b \in 1..Pick2(4, 6), c \in 1..Pick2(3, 5), m \in 1..3, r \in 1..Pick2(1, 2) :
          (Thorough \/ (fi + b + c + m) % 3 = 0) /\ scn = <<2, fi, b, c, m, r>>
   \/ \E vi \in 1..Len(Vs), b \in 1..3, c \in {2, 5}, r \in 1..Pick2(1, 3) :
          (Thorough \/ (b = 1 + (vi % 3) /\ c = IF vi % 2 = 0 THEN 2 ELSE 5)) /\ scn = <<3, vi, b, c, r>>
Next == ph = "pick" /\ ph' = "emit" /\ scn' = CASE scn[1] = 1 -> Plain(scn[2], scn[3], scn[4], scn[5])
                                              [] scn[1] = 2 -> Batched(scn[2], scn[3], scn[4], scn[5], scn[6])
                                              [] scn[1] = 3 -> Vol(scn[2], scn[3], scn[4], scn[5])
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the mean of the batch estimates is the estimate of the union; the  *)
(* variance is real and not negative, and zero for a single point; it is the  *)
(* mean square of the deviations divided by the size                          *)
Smp(b, n, m) == [i \in 1..n |-> [z |-> GVec(RndPoint(m, <<b, i, m>>)), w |-> GNum(<<RndI(<<b, i, n>>, -20, 30), 0, 8>>)]]
Same(a, b) == CLeq(CAbs2(CSub(a, b)), CMul(Tenm(40), CMax(C1, CAbs2(a))))
Laws == ph = "emit" /\ scn.op = "batched" =>
   LET S == [b \in 1..scn.batches |-> Smp(b + scn.key, scn.count, scn.m)] U == Union(S) f == scn.fn IN
   /\ Len(U) = scn.batches * scn.count
   /\ \A c \in 1..FSize(f, scn.m) : LET e == Est(f, U, c) v == VarEst(f, U, c) t == Terms(f, U, c) IN
      /\ Same(e, Mean(Vec(scn.batches, LAMBDA b : Est(f, S[b], c))))
      /\ CIm(v) = C0 /\ CLeq(CNeg(Tenm(20)), v)
      /\ Same(v, CDiv(Mean(Vec(Len(t), LAMBDA i : CAbs2(CSub(t[i], e)))), CInt(Len(t))))
      /\ Len(FVal(f, U[1].z)) = FSize(f, scn.m)
=============================================================================
