------------------------------- MODULE C18Gen -------------------------------
EXTENDS AlgLib, BatchStream
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == SelectSeq(AllVars, LAMBDA v : v.np > 0)
Prs == <<"uniform", "constant", "grid">>
(* schedule: which of the three samplers delivers next *)
Scn(vi, r) == LET q == <<vi, r, 61>> v == Vs[vi] IN
   [op |-> "stream", v |-> v, seed |-> RndI(q \o <<1>>, 0, 30000), other |-> RndI(q \o <<2>>, 30001, 32000),
    sets |-> RndI(q \o <<3>>, 1, Pick2(3, 4)), points |-> RndI(q \o <<4>>, 1, Pick2(4, 7)), psampler |-> Prs[1 + ((vi + r) % 3)],
    samplers |-> <<[B |-> RndI(q \o <<5>>, 1, 2), kind |-> "int"], [B |-> RndI(q \o <<6>>, 3, 4), kind |-> "key"],
                   [B |-> RndI(q \o <<7>>, 1, 5), kind |-> "int"]>>,
    sched |-> [i \in 1..Pick2(16, 30) |-> RndI(q \o <<8, i>>, 1, 3)]]
Rns(r) == [op |-> "rns", seed |-> RndI(<<r, 71>>, 0, 30000), other |-> RndI(<<r, 72>>, 30001, 32000), count |-> RndI(<<r, 73>>, 1, 12)]
Init == \/ ph = "pick" /\ \/ \E vi \in 1..Len(Vs), r \in 1..Pick2(1, 3) : scn = <<1, vi, r>>
                          \/ \E r \in 1..Pick2(6, 30) : scn = <<2, r>>
        \/ ph = "machine" /\ \E B \in 1..Pick2(5, 8) : scn = NewSampler(B)
Next == \/ ph = "pick" /\ ph' = "emit" /\ scn' = IF scn[1] = 1 THEN Scn(scn[2], scn[3]) ELSE Rns(scn[2])
        \/ ph = "machine" /\ ph' = ph /\ Len(scn.out) < Pick2(20, 40) /\ scn' = Deliver(scn)
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the buffered machine delivers the stream in order; what was taken  *)
(* from the stream and not delivered is in the buffer                         *)
Laws == ph = "machine" => /\ InOrder(scn)
                          /\ scn.idx < scn.B /\ scn.taken = Len(scn.out) + (scn.B - scn.idx)
                          /\ \A i \in 1..(scn.B - scn.idx) : scn.buf[scn.idx + i] = Len(scn.out) + i
(* design: every schedule makes some sampler cross a refill *)
Crosses == ph = "emit" /\ scn.op = "stream" =>
   \E k \in 1..3 : Len(SelectSeq(scn.sched, LAMBDA x : x = k)) > scn.samplers[k].B
=============================================================================
