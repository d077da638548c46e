------------------------------- MODULE C21Gen -------------------------------
EXTENDS GenBase, Sampling
VARIABLES scn
vars == <<scn>>
Shapes == <<<<>>, <<1>>, <<5>>, <<2, 3>>, <<3, 1, 2>>, <<0>>, <<2, 0>>, <<2, 1, 2, 3>>>>
Radii == <<<<0, 1>>, <<0, 4>>, <<1, 2>>, <<2, 2>>, <<3, 20>>, <<1, 16>>, <<7, 8>>>>     \* quarters
Key(s) == RndI(s, 0, 30000)
Sizes == <<9, 16, 20, 32, 80>>      \* patch sizes in eighths
NStat == Pick2(20000, 60000)
Init ==
  \/ \E si \in 1..Len(Shapes), k \in 1..Pick2(2, 6), fn \in {"components", "unit", "rsphere", "csphere"} :
       scn = [op |-> "range", fn |-> fn, shape |-> Shapes[si], key |-> Key(<<si, k>>), lo |-> 0, hi |-> 4]
  \/ \E si \in 1..Len(Shapes), k \in 1..Pick2(2, 6), ri \in 0..Len(Radii) :     \* 0: defaults
       scn = [op |-> "range", fn |-> IF ri = 0 THEN "disk" ELSE "annulus", shape |-> Shapes[si], key |-> Key(<<si, k, ri>>),
              lo |-> IF ri = 0 THEN 0 ELSE Radii[ri][1], hi |-> IF ri = 0 THEN 4 ELSE Radii[ri][2]]
  \/ \E c \in {0, 1, 4}, d \in 1..Pick2(4, 6), k \in 1..Pick2(1, 3) :
       scn = [op |-> "projective", count |-> c, dim |-> d, key |-> Key(<<c, d, k, 3>>)]
  \/ \E c \in {0, 1, 6}, d \in 1..Pick2(4, 5), p \in 0..5, q \in 0..5, k \in 1..Pick2(1, 3) :
       /\ p <= d /\ q <= d /\ p # q
       /\ scn = [op |-> "overlap", count |-> c, dim |-> d, p |-> p, q |-> q, size |-> RndOf(<<c, d, p, q, k>>, Sizes),
                 key |-> Key(<<c, d, p, q, k, 3>>)]
  \/ \E k \in 1..2 : scn = [op |-> "stat", fn |-> "components", a |-> 0, b |-> 0, n |-> 0, p |-> 0, q |-> 0, N |-> NStat, key |-> Key(<<k, 90>>)]
  \/ \E ri \in 1..Len(Radii) : scn = [op |-> "stat", fn |-> "annulus", a |-> Radii[ri][1], b |-> Radii[ri][2], n |-> 0, p |-> 0, q |-> 0, N |-> NStat, key |-> Key(<<ri, 91>>)]
  \/ scn = [op |-> "stat", fn |-> "unit", a |-> 4, b |-> 4, n |-> 0, p |-> 0, q |-> 0, N |-> NStat, key |-> Key(<<92>>)]
  \/ \E n \in 1..Pick2(5, 7), fn \in {"rsphere", "csphere"} : scn = [op |-> "stat", fn |-> fn, a |-> 0, b |-> 0, n |-> n, p |-> 0, q |-> 0, N |-> NStat, key |-> Key(<<n, 93>>)]
  \/ \E n \in 1..Pick2(4, 6), fn \in {"projhom", "projaff"} : scn = [op |-> "stat", fn |-> fn, a |-> 0, b |-> 0, n |-> n, p |-> 0, q |-> 0, N |-> NStat, key |-> Key(<<n, 94>>)]
  \/ \E n \in 1..Pick2(3, 4), p \in 0..4, q \in 0..4 :
       /\ p <= n /\ q <= n /\ p # q
       /\ scn = [op |-> "stat", fn |-> "overlap", a |-> RndOf(<<n, p, q>>, Sizes), b |-> 0, n |-> n, p |-> p, q |-> q, N |-> NStat, key |-> Key(<<n, p, q, 95>>)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emitted == Emit(scn)
(* the annulus with equal radii is the circle; sphere moments are consistent  *)
Consistent == scn.op = "stat" =>
  /\ scn.fn = "unit" => DiskMoments(C1, C1).u = M(C1, C0)
  /\ scn.fn = "rsphere" => CMul(CInt(scn.n), SphereMoments(scn.n).x2.mean) = C1
  /\ scn.fn = "csphere" => /\ CAdd(CMul(CInt(scn.n), CSphereMoments(scn.n).u2.mean),
                                   CMul(CInt(scn.n * (scn.n - 1)), CSphereMoments(scn.n).uv.mean)) = C1
=============================================================================
