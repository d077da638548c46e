------------------------------ MODULE Marginal ------------------------------
(* Values on a grid of real directions, stored flat with the last direction   *)
(* running fastest; marginals over the other directions; where they are drawn *)
(* in a triangular array of plots.                                            *)
EXTENDS Lin
SizeOf(sh) == FoldLeft(LAMBDA a, n : a * n, 1, sh)
(* number of entries per step along direction a *)
Stride(sh, a) == SizeOf(SubSeq(sh, a + 1, Len(sh)))
(* position along direction a of the k-th value, counted from one *)
Digit(sh, a, k) == (((k - 1) \div Stride(sh, a)) % sh[a]) + 1
(* positions of all entries with position i in direction a *)
Slice1(sh, a, i) == {k \in 1..SizeOf(sh) : Digit(sh, a, k) = i}
Slice2(sh, a, i, b, j) == {k \in 1..SizeOf(sh) : Digit(sh, a, k) = i /\ Digit(sh, b, k) = j}
Least(q) == FoldLeft(LAMBDA m, x : CMin(m, x), q[1], q)
Greatest(q) == FoldLeft(LAMBDA m, x : CMax(m, x), q[1], q)
Mean(q) == CDiv(CSum(q), CInt(Len(q)))
Pickd(A, S) == LET q == SetToSeq(S) IN [k \in 1..Len(q) |-> A[q[k]]]
Reduce(how, q) == CASE how = "min" -> Least(q) [] how = "max" -> Greatest(q) [] OTHER -> Mean(q)
Marg1(how, A, sh, a) == Vec(sh[a], LAMBDA i : Reduce(how, Pickd(A, Slice1(sh, a, i))))
Marg2(how, A, sh, a, b, i, j) == Reduce(how, Pickd(A, Slice2(sh, a, i, b, j)))
(* equally spaced from -r to r *)
GridAt(r, n, i) == IF n = 1 THEN CNeg(r) ELSE CAdd(CNeg(r), CDiv(CMul(CInt(2 * (i - 1)), r), CInt(n - 1)))
GridSeq(r, n) == Vec(n, LAMBDA i : GridAt(r, n, i))
(* directions alternate between real and imaginary part of the parameters *)
ParamOf(a) == (a + 1) \div 2
PartText(a) == IF a % 2 = 1 THEN "Re" ELSE "Im"
AxisText(a, tex) == "$\\mathrm{" \o PartText(a) \o "}[" \o tex[ParamOf(a)] \o "]$"
(* triangular array: direction a against itself in cell (a, a), image of      *)
(* directions a (across) and b (upwards) in row b, column a, for a < b        *)
Cells(n) == {<<b, a>> : a \in 1..n, b \in 1..n} \cap {c \in (1..n) \X (1..n) : c[2] <= c[1]}
XText(n, row, col, tex) == IF row = n THEN AxisText(col, tex) ELSE ""
YText(n, row, col, tex) == IF col = 1 /\ row > 1 THEN AxisText(row, tex) ELSE IF row = 1 THEN "$\\sigma$ accuracy" ELSE ""
(* the widest view over everything: mean is between extremes, extremes of     *)
(* marginals are extremes of the whole                                        *)
MargLaws(A, sh) == \A a \in 1..Len(sh) :
   LET lo == Marg1("min", A, sh, a) hi == Marg1("max", A, sh, a) me == Marg1("mean", A, sh, a) IN
   /\ \A i \in 1..sh[a] : CLeq(lo[i], me[i]) /\ CLeq(me[i], hi[i])
   /\ Least(lo) = Least(A) /\ Greatest(hi) = Greatest(A)
   /\ Mean(me) = Mean(A)
   /\ \A b \in 1..Len(sh) : b > a => \A i \in 1..sh[a] :
        Mean(Vec(sh[b], LAMBDA j : Marg2("mean", A, sh, a, b, i, j))) = me[i]
(* every entry is in exactly one cell of every marginal *)
Partition(sh) == \A a \in 1..Len(sh) : Cardinality(Slice1(sh, a, 1)) * sh[a] = SizeOf(sh)
=============================================================================
