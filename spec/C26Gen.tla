------------------------------- MODULE C26Gen -------------------------------
EXTENDS GenBase, Marginal
VARIABLES ph, scn
vars == <<ph, scn>>
Names == << <<"psi">>, <<"alpha1">>, <<"alpha1", "alpha2">>, <<"b", "a">>, <<"psi", "t">>, <<"a_0", "phi", "c3">> >>
Hows == <<"mean", "min", "max", "default">>
Shape(np, q) == IF np = 3 THEN [a \in 1..6 |-> 2] ELSE [a \in 1..(2 * np) |-> RndI(q \o <<a>>, IF np = 1 THEN 1 ELSE 2, IF np = 1 THEN 6 ELSE 4)]
Scn(ni, hi, k) == LET q == <<ni, hi, k>> np == Len(Names[ni]) sh == Shape(np, q) IN
  [op |-> "plot", names |-> Names[ni], how |-> Hows[hi], shape |-> sh, A |-> [i \in 1..SizeOf(sh) |-> <<RndI(q \o <<i, 5>>, 1, 900), 0, 512>>],
   ranges |-> [p \in 1..np |-> <<RndI(q \o <<p, 7>>, 1, 40), 0, 4>>],
   lim |-> RndN(q \o <<8>>, 4), lo |-> <<RndI(q \o <<9>>, 0, 100), 0, 512>>, hi |-> <<RndI(q \o <<10>>, 600, 1000), 0, 512>>, fig |-> (k + hi) % 3]
Init == ph = "pick" /\ scn \in {<<ni, hi, k>> : ni \in 1..Len(Names), hi \in 1..4, k \in 1..Pick2(2, 8)} /\ (Len(Names[scn[1]]) = 3 => scn[3] = 1)
Next == ph = "pick" /\ ph' = "emit" /\ scn' = Scn(scn[1], scn[2], scn[3])
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
Laws == ph = "emit" => Partition(scn.shape) /\ MargLaws(GVec(scn.A), scn.shape)
=============================================================================
