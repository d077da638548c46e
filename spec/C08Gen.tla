------------------------------- MODULE C08Gen -------------------------------
EXTENDS VarLib, PointSample
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == AllVars
Par(v, k, q) == [i \in 1..v.np |-> IF k = 4 \/ (k = 5 /\ i = 1) THEN <<0, 0, 1>> ELSE NzG(q \o <<i, 77>>)]
Counts(v) == <<1, v.deg, v.deg + 1, 2 * v.deg - 1, 7, 12, 2>>
Scn(vi, k, c) == LET v == Vs[vi] q == <<vi, k, c, 61>> IN
   [op |-> "sample", v |-> v, lay |-> 0, par |-> Par(v, k, q), count |-> Counts(v)[c], key |-> RndI(q \o <<1>>, 0, 30000),
    key2 |-> 30001 + RndI(q \o <<2>>, 0, 30000), jit |-> (k + c) % 3 = 0, names |-> (k + c + vi) % 4]
Flat1 == <<VPlane(3), VPlane(4), VFermat(3), VFermat(4), VPlane(5)>>
Mom(vi, k) == LET v == Flat1[vi] q == <<vi, k, 63>> IN
   [op |-> "moments", v |-> v, lay |-> 0, par |-> Par(v, 1, q), count |-> Pick2(6000, 8000) + k, key |-> RndI(q \o <<1>>, 0, 30000),
    us |-> [i \in 1..2 |-> RndPoint(v.n, q \o <<i>>)] \o [i \in 1..2 |-> [j \in 1..v.n |-> IF i = j THEN <<1, 0, 1>> ELSE <<0, 0, 1>>]]]
Init == ph = "pick" /\
  \/ \E vi \in 1..Len(Vs), k \in 1..Pick2(5, 9), c \in 1..7 :
        /\ (k \in {4, 5} => Vs[vi].np > 0) /\ (Thorough \/ (vi + 3 * k + c) % 4 = 0) /\ scn = <<1, vi, k, c>>
  \/ \E vi \in 1..Len(Flat1), k \in 1..Pick2(1, 3) : scn = <<2, vi, k, 0>>
Next == ph = "pick" /\ ph' = "emit" /\ scn' = IF scn[1] = 1 THEN Scn(scn[2], scn[3], scn[4]) ELSE Mom(scn[2], scn[3])
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: a line meets the variety of degree d in d points (the restriction  *)
(* of Q to it has degree d), and weights do not depend on the representative  *)
LineDeg == ph = "emit" /\ scn.op = "sample" =>
   LET v == NumV(scn.v) a == GVec(RndPoint(v.n, <<scn.key, 1>>)) b == GVec(RndPoint(v.n, <<scn.key, 2>>)) par == GVec(scn.par)
       at(t) == QHom(v, VAdd(a, VScale(CInt(t), b)), par)
       d == scn.v.deg
       sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
   IN (* finite difference of order d is d! Q(b), of order d+1 zero *)
      /\ CSum([k \in 1..(d + 1) |-> CMul(CInt(sgn(d - k + 1) * (FactI(d) \div (FactI(k - 1) * FactI(d - k + 1)))), at(k - 1))])
            = CMul(CInt(FactI(d)), QHom(v, b, par))
      /\ CSum([k \in 1..(d + 2) |-> CMul(CInt(sgn(d + 1 - k + 1) * (FactI(d + 1) \div (FactI(k - 1) * FactI(d + 2 - k)))), at(k - 1))]) = C0
=============================================================================
