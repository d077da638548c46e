-------------------------------- MODULE Dual --------------------------------
(* Numbers moving along a real parameter t: x + t x' with t^2 = 0.  Because t *)
(* is real, conjugation acts on both parts; so values of functions that are   *)
(* not holomorphic have a rate of change along a direction as well.  The      *)
(* definitions of the other modules repeated on these numbers give the exact  *)
(* derivative of everything the library computes from points, moduli and H.   *)
EXTENDS AlgMetric
Du(a, b) == <<a, b>>
DConst(a) == Du(a, C0)
DZero == DConst(C0)
DOne == DConst(C1)
DRound(x) == Du(CRound(x[1], 220), CRound(x[2], 220))
DAdd(x, y) == Du(CAdd(x[1], y[1]), CAdd(x[2], y[2]))
DSub(x, y) == Du(CSub(x[1], y[1]), CSub(x[2], y[2]))
DNeg(x) == Du(CNeg(x[1]), CNeg(x[2]))
DMul(x, y) == Du(CMul(x[1], y[1]), CAdd(CMul(x[1], y[2]), CMul(x[2], y[1])))
DScale(c, x) == Du(CMul(c, x[1]), CMul(c, x[2]))
DDiv(x, y) == LET q == CDiv(x[1], y[1]) IN Du(q, CDiv(CSub(x[2], CMul(q, y[2])), y[1]))
DConj(x) == Du(CConj(x[1]), CConj(x[2]))
DAbs2(x) == DMul(x, DConj(x))
DSumOver(n, F(_)) == FoldLeft(DAdd, DZero, Vec(n, F))
DDot(x, y) == DSumOver(Len(x), LAMBDA i : DMul(x[i], y[i]))
DVConj(x) == Vec(Len(x), LAMBDA i : DConj(x[i]))
DMMul(A, B) == Mat(Rows(A), Cols(B), LAMBDA i, j : DSumOver(Cols(A), LAMBDA k : DMul(A[i][k], B[k][j])))
DMH(A) == Mat(Cols(A), Rows(A), LAMBDA i, j : DConj(A[j][i]))
DMRound(A) == Mat(Rows(A), Cols(A), LAMBDA i, j : DRound(A[i][j]))
RECURSIVE DPow(_, _)
DPow(x, n) == IF n = 0 THEN DOne ELSE IF n = 1 THEN x ELSE DMul(x, DPow(x, n - 1))
RECURSIVE DDet(_)
DDet(A) == IF Len(A) = 0 THEN DOne ELSE IF Len(A) = 1 THEN A[1][1]
           ELSE DSumOver(Len(A), LAMBDA k :
                  LET minor == [i \in 1..(Len(A) - 1) |-> Drop(A[i + 1], k)]
                      t == DMul(A[1][k], DDet(minor))
                  IN IF k % 2 = 1 THEN t ELSE DNeg(t))
(* vectors and matrices moving in a direction *)
Moving(x, dx) == Vec(Len(x), LAMBDA i : Du(x[i], dx[i]))
MovingM(A, dA) == Mat(Rows(A), Cols(A), LAMBDA i, j : Du(A[i][j], dA[i][j]))
Rate(x) == x[2]
Rates(x) == Vec(Len(x), LAMBDA i : x[i][2])
RatesM(A) == Flat(Mat(Rows(A), Cols(A), LAMBDA i, j : A[i][j][2]))
(* charts *)
DHom(z, p) == Ins(z, p + 1, DOne)
DAff(h, p) == LET a == Drop(h, p + 1) IN Vec(Len(a), LAMBDA i : DDiv(a[i], h[p + 1]))
(* polynomials *)
DuMon(x, a) == FoldLeft(LAMBDA acc, k : IF a[k] = 0 THEN acc ELSE DMul(acc, DPow(x[k], a[k])), DOne, Range0(Len(a)))
DPoly(T, x, par) == DSumOver(Len(T), LAMBDA t : DScale(T[t].c, DMul(DuMon(x, T[t].a), DuMon(par, T[t].b))))
DGrad(v, z, par, p) == LET h == DHom(z, p) amb(i) == IF i <= p THEN i ELSE i + 1 IN
   Vec(Len(z), LAMBDA i : DPoly(PDiff(v.T, amb(i)), h, par))
(* Fubini-Study *)
DNorm(z) == DAdd(DOne, DDot(z, DVConj(z)))
DFS(z) == LET nn == DNorm(z) n2 == DMul(nn, nn) zc == DVConj(z) IN
   Mat(Len(z), Len(z), LAMBDA i, j : DRound(DDiv(DSub(IF i = j THEN nn ELSE DZero, DMul(zc[i], z[j])), n2)))
(* embedding and pullback *)
DEmbed(G, d) == LET amb(k) == IF k <= d THEN k ELSE k + 1 IN
   Mat(Len(G) - 1, Len(G), LAMBDA k, j : IF j = d + 1 THEN DRound(DNeg(DDiv(G[amb(k)], G[d + 1])))
                                         ELSE IF j = amb(k) THEN DOne ELSE DZero)
DInduced(g, G, d) == LET E == DEmbed(G, d) IN DMRound(DMMul(E, DMMul(g, DMH(E))))
DWeight(z, G, d) == LET m == Len(z) - 1 IN
   DScale(CDiv(CRound(CPow(PI, m), 120), CInt(FactI(m))), DDiv(DOne, DMul(DAbs2(G[d + 1]), DDet(DInduced(DFS(z), G, d)))))
(* sections, potential and metric of the algebraic ansatz *)
DSecs(pm, z, p, i) == Vec(Len(pm), LAMBDA a : LET e == Drop(pm[a], p + 1) IN
   IF i = 0 THEN DuMon(z, e) ELSE IF e[i] = 0 THEN DZero ELSE DScale(CInt(e[i]), DuMon(z, [e EXCEPT ![i] = @ - 1])))
DPsis(pm, H, z, p, ord) == LET m == IF ord = 0 THEN 0 ELSE Len(z)
                               S == Vec(m + 1, LAMBDA i : DSecs(pm, z, p, i - 1))
                               W == Vec(m + 1, LAMBDA j : Vec(Len(pm), LAMBDA a : DDot(H[a], DVConj(S[j])))) IN
   Mat(m + 1, m + 1, LAMBDA i, j : DRound(DDot(S[i], W[j])))
DMetric(pm, k, H, z, p) == LET q == DPsis(pm, H, z, p, 1) c == CRound(CDiv(C1, PiK(k)), 200)
                               L == Vec(Len(z), LAMBDA i : DRound(DDiv(q[i + 1][1], q[1][1])))
                               R == Vec(Len(z), LAMBDA j : DRound(DDiv(q[1][j + 1], q[1][1]))) IN
   Mat(Len(z), Len(z), LAMBDA i, j : DRound(DScale(c, DSub(DDiv(q[i + 1][j + 1], q[1][1]), DMul(L[i], R[j])))))
DEta(g, G, d) == DMul(DDet(DInduced(g, G, d)), DAbs2(G[d + 1]))
(* rate of log x *)
LogRate(x) == CDiv(x[2], x[1])
=============================================================================
