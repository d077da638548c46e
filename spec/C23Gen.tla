------------------------------- MODULE C23Gen -------------------------------
EXTENDS AlgLib, Training
VARIABLES ph, scn
vars == <<ph, scn>>
(* a twisted cubic curve with two moduli, as the quintic configuration has *)
VTwo == [kind |-> "poly", n |-> 3, np |-> 2, deg |-> 3, T |->
  Append(Append(FermatT(3, 2), T1(One, <<1, 1, 1>>, <<1, 0>>)), T1(<<1, 0, 1>>, <<1, 2, 0>>, <<0, 1>>))]
Vs == << VDwork(3, -5), VTwo, VDwork(4, -5), VCubic3, VQuart4 >>
Scn(vi, r) == LET v == Vs[vi] q == <<vi, r, 81>> IN
   [op |-> "train", v |-> v, k |-> IF v.n = 3 THEN RndI(q \o <<1>>, 1, 2) ELSE 1, seed |-> RndI(q \o <<2>>, 0, 30000),
    layers |-> IF r % 3 = 0 THEN <<5, 3>> ELSE <<4>>, powers |-> IF (vi + r) % 2 = 0 THEN <<1>> ELSE <<1, 2>>, sig |-> RndI(q \o <<3>>, 0, 2) > 0,
    dropout |-> (vi + r) % 4 = 0, sets |-> RndI(q \o <<4>>, 1, 3), points |-> RndI(q \o <<5>>, 2, 5), buffer |-> RndI(q \o <<6>>, 1, 4),
    bounds |-> [j \in 1..v.np |-> <<RndI(q \o <<7, j>>, 2, 28), 0, 4>>], minutes |-> RndI(q \o <<8>>, 1, Pick2(7, 9)), every |-> RndI(q \o <<9>>, 1, 4),
    vcount |-> RndI(q \o <<10>>, 1, 4), sample |-> RndI(q \o <<11>>, 2, 6), g |-> IF v.np = 1 THEN RndI(q \o <<12>>, 2, 6) ELSE RndI(q \o <<12>>, 2, 3),
    eb |-> RndOf(q \o <<13>>, <<1, 2, 3, 4, 5, 7, 100>>), eval |-> RndI(q \o <<14>>, 0, 5) > 0, noseed |-> r % 5 = 4,
    again |-> (vi <= 2 /\ r \in {1, 4}) \/ (Thorough /\ r \in {1, 9})]
Init == \/ ph = "pick" /\ \E vi \in 1..Len(Vs), r \in 1..Pick2(4, 14) : (Thorough \/ vi <= 2 \/ r <= 2) /\ scn = <<vi, r>>
        \/ ph = "run" /\ \E every \in 1..5 : scn = Run0(every)
        \/ ph = "grid" /\ \E np \in 1..2, g \in 2..4, b \in 1..6 : scn = <<np, g, b>>
Next == \/ ph = "pick" /\ ph' = "emit" /\ scn' = Scn(scn[1], scn[2])
        \/ ph = "run" /\ ph' = ph /\ ~scn.done /\ ((scn.t < 12 /\ scn' = RunStep(scn)) \/ scn' = RunEnd(scn))
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: what is on disk at any time belongs to the last logging step, and  *)
(* after the run to the last step                                             *)
Laws == ph = "run" /\ scn.t > 0 =>
   LET n == NLog(scn.t, scn.every) d == scn.disk IN
   /\ Len(scn.rows) = n /\ \A r \in 1..n : scn.rows[r] = LogStep(r, scn.every)
   /\ Len(scn.losses) = scn.t
   /\ d.rows = scn.rows /\ d.params = Len(d.losses)
   /\ IF scn.done THEN d.losses = scn.losses ELSE Len(d.losses) = LogStep(n, scn.every)
(* design: the grid has its corners at the bounds, all points differ, slices  *)
(* cover every point once                                                     *)
GridLaws == ph = "grid" => LET np == scn[1] g == scn[2] n == GridSize(np, g) bs == [k \in 1..np |-> CFrac(3 * k, 0, 2)] S == Slices(n, scn[3]) IN
   /\ Modulus(1, bs, g) = Vec(np, LAMBDA k : CMul(bs[k], CFrac(-1, -1, 1)))
   /\ Modulus(n, bs, g) = Vec(np, LAMBDA k : CMul(bs[k], CFrac(1, 1, 1)))
   /\ Cardinality({Modulus(i, bs, g) : i \in 1..n}) = n
   /\ \A i \in 1..n : Inside(Modulus(i, bs, g), bs) /\ Cardinality({k \in 1..Len(S) : S[k][1] <= i /\ i <= S[k][2]}) = 1
   /\ \A k \in 1..Len(S) : S[k][2] - S[k][1] + 1 <= scn[3]
=============================================================================
