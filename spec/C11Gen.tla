------------------------------- MODULE C11Gen -------------------------------
EXTENDS VarLib
VARIABLES ph, scn
vars == <<ph, scn>>
Vs == SubSeq(AllVars, 1, 14)
(* patch -1: homogeneous *)
Lays == <<<<1, 1>>, <<3, 1>>, <<3, 3>>, <<1, 3>>, <<6, 3>>>>     \* sizes of points and parameters
Pt(n, s, k) == [i \in 1..n |-> IF k % 3 = 2 /\ RndN(s \o <<i, 9>>, 3) = 0 THEN <<0, 0, 1>> ELSE OffG(s \o <<i>>)]
(* nearly real data: roots with small imaginary parts                         *)
Near(vi, p, d, k) == (vi + p + d + k) % 3 = 0
NearPt(n, s) == [i \in 1..n |-> NearReal(NzG(s \o <<i>>))]
(* very large or very small coordinates, hence roots of that size             *)
Size(vi, p, d, k) == LET r == (2 * vi + p + 3 * d + 5 * k) % 7 IN IF r = 1 THEN 12 ELSE IF r = 4 THEN -12 ELSE 0
Sized(z, e) == IF e = 0 THEN z ELSE [i \in 1..Len(z) |-> <<z[i][1], z[i][2], z[i][3], e>>]
Scn(vi, p, d, lay, k) == LET v == Vs[vi] m == IF p = -1 THEN v.n - 1 ELSE v.n - 2 IN
   [op |-> "solve", v |-> v, p |-> p, d |-> d, lay |-> lay, form |-> (vi + p + 2 * d + k + 1) % 4,   \* kind of integer
    e |-> Size(vi, p, d, k),
    zs |-> [b \in 1..6 |-> Sized(IF Near(vi, p, d, k) /\ b # 6 THEN NearPt(m, <<vi, p + 1, d, b, k>>) ELSE Pt(m, <<vi, p + 1, d, b, k>>, k), Size(vi, p, d, k))],
    pars |-> [b \in 1..6 |-> IF Near(vi, p, d, k) /\ b # 6 THEN NearPt(v.np, <<vi, p + 1, b, k, 5>>) ELSE RndPar(v.np, <<vi, p + 1, b, k, 5>>)]]
(* full list of coordinates with the dependent one set to zero *)
HomPos(p, d) == IF p = -1 THEN d ELSE PosHom(p, d)
Full(z, p, d) == LET y == Ins(z, d + 1, C0) IN IF p = -1 THEN y ELSE HomOf(y, p)
Good(s) == LET v == NumV(s.v) i == HomPos(s.p, s.d) + 1 IN
   /\ DegIn(v.T, i) > 0
   /\ \A b \in 1..6, c \in 1..6 : LET co == UniCoeffs(v.T, i, Full(GVec(s.zs[b]), s.p, s.d), GVec(s.pars[c])) IN
        LET w == [j \in 1..Len(co) |-> CMul(co[j], TwoPow(s.e * (Len(co) - j)))] IN
        CLeq(CMul(CFrac(1, 0, 10000), MaxAbs2(w)), CAbs2(w[1]))
Init == ph = "pick" /\ \E vi \in 1..Len(Vs), p \in (-1)..4, d \in 0..4, k \in 1..Pick2(2, 5) :
          /\ p < Vs[vi].n /\ d < Vs[vi].n - (IF p = -1 THEN 0 ELSE 1)
          /\ scn = <<vi, p, d, ((vi + p + 2 * d + 3 * k + 1) % 5) + 1, k>>
Next == ph = "pick" /\ ph' = "emit" /\ scn' = Scn(scn[1], scn[2], scn[3], scn[4], scn[5]) /\ Good(scn')
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: the coefficients reassemble to the defining equation *)
Reassemble == ph = "emit" =>
   LET v == NumV(scn.v) i == HomPos(scn.p, scn.d) + 1
       x == Full(GVec(scn.zs[1]), scn.p, scn.d) par == GVec(scn.pars[1])
       co == UniCoeffs(v.T, i, x, par) t == CFrac(3, -2, 5)
       y == [x EXCEPT ![i] = t]
   IN PEval(v.T, y, par) = SumOver(Len(co), LAMBDA k : CMul(co[k], CPow(t, Len(co) - k)))
RootForm == ph = "emit" => FromRoots(CInt(2), <<C1, CInt(-3)>>) = <<CInt(2), CInt(4), CInt(-6)>>
=============================================================================
