------------------------------- MODULE C19Gen -------------------------------
EXTENDS GenBase, Cholesky
VARIABLES scn
vars == <<scn>>
Sizes == 1..Pick2(6, 8)
Nz(s) == LET x == OffG(s)[1] IN IF x = 0 THEN 5 ELSE x
DiagN(n, k) == [i \in 1..n |-> <<Nz(<<n, k, i>>), 0, OffG(<<n, k, i>>)[3]>>]
UpN(n, k) == [i \in 1..NUpper(n) |-> LET g == OffG(<<n, k, i, 7>>) IN
                IF k % 4 = 3 THEN <<g[1], 0, g[3]>> ELSE IF k % 4 = 2 /\ i % 2 = 0 THEN <<0, 0, 1>> ELSE g]
Init ==
  \/ \E n \in Sizes, k \in 1..Pick2(8, 30) :
       scn = [op |-> "decode", n |-> n, diag |-> DiagN(n, k), upper |-> UpN(n, k), real |-> k % 4 = 3, style |-> k % 3]
  \/ \E n \in Sizes, k \in 1..Pick2(6, 20), b \in 0..2 :
       scn = [op |-> "batch", n |-> n, b |-> b, diag |-> [j \in 1..3 |-> DiagN(n, 40 * j + k)],
              upper |-> [j \in 1..3 |-> UpN(n, 40 * j + k)]]
  (* derivative in a direction of the parameters, forward (0), reverse (1) *)
  \/ \E n \in Sizes, k \in 1..Pick2(4, 12), b \in 0..1 :
       scn = [op |-> "tangent", n |-> n, b |-> b, diag |-> DiagN(n, 300 + k), upper |-> UpN(n, 300 + k), ddiag |-> DiagN(n, 400 + k), dupper |-> UpN(n, 400 + k)]
  (* many diagonal entries: their distribution                              *)
  \/ \E f \in {1, 2, 3}, k \in 1..Pick2(1, 4) : scn = [op |-> "spread", n |-> 1000, fl |-> f, key |-> RndI(<<f, k, 17>>, 0, 30000)]
  \/ \E n \in Sizes \cup {12}, f \in {-1, 0, 1, 2, 3}, k \in 1..Pick2(3, 8) :
       scn = [op |-> "init", n |-> n, fl |-> f, key |-> RndI(<<n, f + 2, k>>, 0, 30000), dt |-> (n + k) % 3]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emitted == Emit(scn)
(* the flat form describes the same matrix; the matrix is Hermitian positive *)
FlatForm == scn.op = "decode" => LET d == GVec(scn.diag) u == GVec(scn.upper) IN
              DecodePar(ParOf(d, u), scn.n) = Decode(d, u)
Positive == scn.op = "decode" => LET H == Decode(GVec(scn.diag), GVec(scn.upper)) IN IsHermitian(H) /\ PosDef(H)
(* the map is quadratic: its derivative is the symmetric difference *)
Derivative == scn.op = "tangent" => LET p == ParOf(GVec(scn.diag), GVec(scn.upper)) d == ParOf(GVec(scn.ddiag), GVec(scn.dupper)) n == scn.n IN
  LET A == DecodePar(VAdd(p, d), n) B == DecodePar(VSub(p, d), n) D == DecodeDir(p, d, n) IN
  /\ IsHermitian(D)
  /\ \A i \in 1..n, j \in 1..n : CSub(A[i][j], B[i][j]) = CMul(CInt(2), D[i][j])
IdentityInit == scn.op = "init" => DecodePar(IdPar(scn.n), scn.n) = Id(scn.n)
=============================================================================
