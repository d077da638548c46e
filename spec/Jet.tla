-------------------------------- MODULE Jet --------------------------------
(* Second-order mixed jets: a + b e + c d + f e d with e^2 = d^2 = 0.  The    *)
(* e part is a derivative in one holomorphic direction, the d part in one     *)
(* antiholomorphic direction, the ed part the mixed second derivative.        *)
EXTENDS Lin
J(a, b, c, f) == <<a, b, c, f>>
JConst(a) == J(a, C0, C0, C0)
JAdd(x, y) == J(CAdd(x[1], y[1]), CAdd(x[2], y[2]), CAdd(x[3], y[3]), CAdd(x[4], y[4]))
JSub(x, y) == J(CSub(x[1], y[1]), CSub(x[2], y[2]), CSub(x[3], y[3]), CSub(x[4], y[4]))
JMul(x, y) == J(CMul(x[1], y[1]),
                CAdd(CMul(x[1], y[2]), CMul(x[2], y[1])),
                CAdd(CMul(x[1], y[3]), CMul(x[3], y[1])),
                CAdd(CAdd(CMul(x[1], y[4]), CMul(x[4], y[1])),
                     CAdd(CMul(x[2], y[3]), CMul(x[3], y[2]))))
JScale(c, x) == J(CMul(c, x[1]), CMul(c, x[2]), CMul(c, x[3]), CMul(c, x[4]))
JNeg(x) == JScale(CInt(-1), x)
JInv(x) == LET i == CDiv(C1, x[1]) i2 == CMul(i, i) i3 == CMul(i2, i) IN
           J(i, CNeg(CMul(x[2], i2)), CNeg(CMul(x[3], i2)),
             CSub(CMul(CInt(2), CMul(CMul(x[2], x[3]), i3)), CMul(x[4], i2)))
JDiv(x, y) == JMul(x, JInv(y))
JZero == JConst(C0)
JOne == JConst(C1)
JSum(s) == FoldLeft(JAdd, JZero, s)
JSumOver(n, F(_)) == JSum(Vec(n, F))
RECURSIVE JPow(_, _)
JPow(x, n) == IF n = 0 THEN JOne ELSE IF n = 1 THEN x ELSE JMul(x, JPow(x, n - 1))
(* mixed derivative of log x *)
LogMixed(x) == CDiv(CSub(CMul(x[1], x[4]), CMul(x[2], x[3])), CMul(x[1], x[1]))
RECURSIVE JDet(_)
JDet(M) == IF Len(M) = 0 THEN JOne ELSE IF Len(M) = 1 THEN M[1][1]
           ELSE JSumOver(Len(M), LAMBDA k :
                  LET minor == [i \in 1..(Len(M) - 1) |-> Drop(M[i + 1], k)]
                      t == JMul(M[1][k], JDet(minor))
                  IN IF k % 2 = 1 THEN t ELSE JNeg(t))
(* coordinates moved in holomorphic direction a and antiholomorphic b *)
HolJet(z, a) == Vec(Len(z), LAMBDA i : J(z[i], IF i = a THEN C1 ELSE C0, C0, C0))
AntJet(zc, b) == Vec(Len(zc), LAMBDA i : J(zc[i], C0, IF i = b THEN C1 ELSE C0, C0))
=============================================================================
