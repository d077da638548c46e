------------------------------- MODULE C22Gen -------------------------------
EXTENDS GenBase, ArrayOps
VARIABLES scn
vars == <<scn>>
N == Pick2(5, 7)
Kinds == <<"i", "f", "c">>
KindOf(s) == RndOf(s, Kinds)
Shapes == <<<<>>, <<1>>, <<4>>, <<2, 3>>, <<3, 1>>, <<2, 2, 3>>, <<1, 3, 2, 2>>, <<0, 3>>, <<2, 0, 2>>>>
ShSh == <<<<12>>, <<9, 2>>, <<2, 10>>, <<3, 9, 2>>, <<2, 2, 9>>, <<2, 1, 9, 2>>, <<10, 2, 3>>>>
(* interleavings of two or three key sequences *)
Walk(k, len) == [i \in 1..len |-> RndI(<<k, i, 71>>, 1, 3)]
Init ==
  \/ \E n \in 1..N, w \in 0..2, i \in (-N)..(N - 1), st \in 0..2 :
       /\ i >= -n /\ i < n
       /\ scn = [op |-> "pop", n |-> n, w |-> w, i |-> i, style |-> st, kind |-> KindOf(<<n, w, i + 9, st>>)]
  \/ \E n \in 0..N, m \in 0..3, i \in (-N - 1)..N, st \in 0..2 :
       /\ i >= -(n + 1) /\ i <= n        \* m = 0: scalar value
       /\ scn = [op |-> "insert", n |-> n, m |-> m, i |-> i, style |-> st, kind |-> KindOf(<<n, m, i + 9, st, 2>>)]
  \/ \E r \in 1..3, n \in 1..(N - 1), m \in 0..2, i \in (-N - 1)..N, st \in 0..1 :
       /\ i >= -(n + 1) /\ i <= n        \* m = 0: one-dimensional column
       /\ scn = [op |-> "inscol", r |-> r, n |-> n, m |-> m, i |-> i, style |-> st, kind |-> KindOf(<<n, m, i + 9, st, r>>)]
  \/ \E si \in 1..Len(Shapes), d \in 0..4, c \in {"no", "implied", "explicit"} :
       /\ d = 0 => Shapes[si] = <<>>     \* d = 0: a scalar
       /\ scn = [op |-> "flat", shape |-> Shapes[si], d |-> d, c |-> c]
  \/ \E si \in 1..Len(ShSh), ax \in (-4)..3, k \in 1..Pick2(2, 6) :
       /\ ax < Len(ShSh[si]) /\ ax >= -Len(ShSh[si])
       /\ ShSh[si][Pos(Len(ShSh[si]), ax)] >= 9
       /\ scn = [op |-> "shuffle", shape |-> ShSh[si], ax |-> ax, key |-> RndI(<<si, ax + 4, k>>, 0, 30000)]
  \/ \E n \in (0..Pick2(14, 40)) \cup {57, 62, 70} : scn = [op |-> "binom", n |-> n]
  \/ \E n \in 0..4, si \in 1..4, st \in 0..3 : scn = [op |-> "prod", n |-> n, shape |-> Shapes[si], style |-> st,
                 vals |-> [a \in 1..n |-> [b \in 1..6 |-> RndG(<<n, si, st, a, b>>)]]]
  \/ \E k \in 1..Pick2(20, 80) :
       scn = [op |-> "keys", seeds |-> [j \in 1..3 |-> IF j = 3 THEN RndI(<<k, 1>>, 0, 20000) ELSE RndI(<<k, j>>, 0, 20000)],
              how |-> [j \in 1..3 |-> RndI(<<k, j, 5>>, 0, 1)], walk |-> Walk(k, 24)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emitted == Emit(scn)
Laws == CASE scn.op = "insert" -> PopInsertLaw([j \in 1..scn.n |-> CInt(j)], CInt(77), scn.i)
          [] scn.op = "inscol" -> scn.m # 0 =>
               ColLaw(Mat(scn.r, scn.n, LAMBDA a, b : CInt(10 * a + b)), Mat(scn.r, scn.m, LAMBDA a, b : CInt(100 * a + b)), scn.i)
          [] scn.op = "binom" -> \A k \in 0..scn.n : scn.n > 14 \/ Choose(scn.n, k) = ChooseF(scn.n, k)
          [] OTHER -> TRUE
=============================================================================
