------------------------------ MODULE Cholesky ------------------------------
(* Hermitian matrices from an upper triangular factor.                        *)
EXTENDS Lin
NUpper(n) == (n * (n - 1)) \div 2
(* row-major index of entry (i, j), i < j, in the list of upper entries *)
UIndex(n, i, j) == (i - 1) * n - ((i - 1) * i) \div 2 + (j - i)
UpperMat(diag, upper) == LET n == Len(diag) IN
   Mat(n, n, LAMBDA i, j : IF i = j THEN diag[i] ELSE IF i < j THEN upper[UIndex(n, i, j)] ELSE C0)
Decode(diag, upper) == LET M == UpperMat(diag, upper) IN MMul(M, MH(M))
(* flat real vector: diagonal, real parts, imaginary parts *)
DiagOf(par, n) == SubSeq(par, 1, n)
UpperOf(par, n) == LET k == NUpper(n) IN
   Vec(k, LAMBDA i : CAdd(par[n + i], CMul(CIu, par[n + k + i])))
DecodePar(par, n) == Decode(DiagOf(par, n), UpperOf(par, n))
(* its derivative in direction d of the parameters                            *)
DecodeDir(par, d, n) == LET M == UpperMat(DiagOf(par, n), UpperOf(par, n)) V == UpperMat(DiagOf(d, n), UpperOf(d, n))
                            A == MMul(V, MH(M)) IN Mat(n, n, LAMBDA i, j : CAdd(A[i][j], CConj(A[j][i])))
ParOf(diag, upper) == diag \o Vec(Len(upper), LAMBDA i : CRe(upper[i])) \o Vec(Len(upper), LAMBDA i : CIm(upper[i]))
IdPar(n) == Vec(n * n, LAMBDA i : IF i <= n THEN C1 ELSE C0)
Lead(M, k) == [i \in 1..k |-> SubSeq(M[i], 1, k)]
IsHermitian(M) == M = MH(M)
PosDef(M) == \A k \in 1..Len(M) : LET d == Det(Lead(M, k)) IN IsReal(d) /\ CLt(C0, d)
=============================================================================
