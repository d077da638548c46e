------------------------------ MODULE ArrayOps ------------------------------
(* Removal, insertion, permutation and reshaping of (nested) sequences, and   *)
(* key sequences.                                                             *)
EXTENDS Lin
(* python position (negative counts from the end) of a sequence of length n *)
Pos(n, i) == IF i < 0 THEN n + i + 1 ELSE i + 1
PopVal(s, i) == s[Pos(Len(s), i)]
PopRest(s, i) == Drop(s, Pos(Len(s), i))
(* vals inserted so that they start at position i >= 0, or so that the last   *)
(* of them is at position i < 0 counted from the end of the result            *)
InsPoint(n, i) == IF i < 0 THEN n + i + 1 ELSE i     \* elements kept in front
InsertVals(s, vals, i) == LET k == InsPoint(Len(s), i) IN
     SubSeq(s, 1, k) \o vals \o SubSeq(s, k + 1, Len(s))
InsertCols(M, c, i) == [r \in 1..Len(M) |-> InsertVals(M[r], c[r], i)]
(* laws tying the operations together *)
PopInsertLaw(s, v, i) ==
   LET k == IF i < 0 THEN Len(s) + 1 + i ELSE i
       t == InsertVals(s, <<v>>, i)
   IN PopVal(t, i) = v /\ PopRest(t, i) = s /\ t[k + 1] = v
ColLaw(M, c, i) == MT(InsertCols(M, c, i)) = InsertVals(MT(M), MT(c), i)
(* row-major blocks *)
Block(d, size, k) == SubSeq(d, (k - 1) * size + 1, k * size)
Blocks(d, size) == [k \in 1..(Len(d) \div size) |-> Block(d, size, k)]
IsPermOf(a, b) == /\ Len(a) = Len(b)
                  /\ \A x \in {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)} :
                       Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
(* out is in with index `ax` (from 0) permuted separately for each leading index *)
IsShuffle(in, out, shape, ax) ==
   LET inner == SProd(SubSeq(shape, ax + 2, Len(shape)))
       n == shape[ax + 1]
       I == Blocks(in, inner * n)
       O == Blocks(out, inner * n)
   IN Len(in) = Len(out) /\ \A b \in 1..Len(I) : IsPermOf(Blocks(I[b], inner), Blocks(O[b], inner))
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN C1 ELSE CAdd(Choose(n - 1, k - 1), Choose(n - 1, k))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN C1 ELSE CMul(CInt(n), Fact(n - 1))
ChooseF(n, k) == CDiv(Fact(n), CMul(Fact(k), Fact(n - k)))
=============================================================================
