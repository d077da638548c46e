-------------------------------- MODULE Lin --------------------------------
(* Exact linear algebra and array comparison on top of Num.                *)
EXTENDS Num, Integers, Sequences, FiniteSets, SequencesExt, TLC

Vec(n, F(_)) == TLCEval([i \in 1..n |-> TLCEval(F(i))])
Mat(n, m, F(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> TLCEval(F(i, j))])])
Map(s, F(_)) == Vec(Len(s), LAMBDA i : F(s[i]))
SumOver(n, F(_)) == CSum(Vec(n, F))

VAdd(a, b) == Vec(Len(a), LAMBDA i : CAdd(a[i], b[i]))
VSub(a, b) == Vec(Len(a), LAMBDA i : CSub(a[i], b[i]))
VScale(c, a) == Vec(Len(a), LAMBDA i : CMul(c, a[i]))
VConj(a) == Vec(Len(a), LAMBDA i : CConj(a[i]))
Dot(a, b) == SumOver(Len(a), LAMBDA i : CMul(a[i], b[i]))
Norm2(a) == SumOver(Len(a), LAMBDA i : CAbs2(a[i]))
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

Rows(M) == Len(M)
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
MT(M) == Mat(Cols(M), Rows(M), LAMBDA i, j : M[j][i])
MConj(M) == Mat(Rows(M), Cols(M), LAMBDA i, j : CConj(M[i][j]))
MH(M) == Mat(Cols(M), Rows(M), LAMBDA i, j : CConj(M[j][i]))
MMul(A, B) == Mat(Rows(A), Cols(B), LAMBDA i, j : SumOver(Cols(A), LAMBDA k : CMul(A[i][k], B[k][j])))
MVec(A, v) == Vec(Rows(A), LAMBDA i : Dot(A[i], v))
MScale(c, M) == Mat(Rows(M), Cols(M), LAMBDA i, j : CMul(c, M[i][j]))
MAdd(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : CAdd(A[i][j], B[i][j]))
MSub(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : CSub(A[i][j], B[i][j]))
Id(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN C1 ELSE C0)
Diag(v) == Mat(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE C0)
Trace(M) == SumOver(Rows(M), LAMBDA i : M[i][i])
Flat(M) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, M)

(* One elimination step below pivot row: M is a sequence of rows; returns   *)
(* rows 2.. reduced by the first row, dropping the first column.            *)
Elim(M) == Mat(Rows(M) - 1, Cols(M) - 1,
               LAMBDA i, j : CSub(M[i+1][j+1], CDiv(CMul(M[i+1][1], M[1][j+1]), M[1][1])))
PivotRow(M) == IF \E i \in 1..Rows(M) : M[i][1] # C0
               THEN CHOOSE i \in 1..Rows(M) : M[i][1] # C0 /\ \A k \in 1..(i-1) : M[k][1] = C0
               ELSE 0
SwapTop(M, i) == TLCEval([k \in 1..Rows(M) |-> IF k = 1 THEN M[i] ELSE IF k = i THEN M[1] ELSE M[k]])
RECURSIVE Det(_)
Det(M) == IF Rows(M) = 0 THEN C1
          ELSE IF \E i \in 1..Rows(M) : NaN \in {M[i][j] : j \in 1..Cols(M)} THEN NaN
          ELSE LET p == PivotRow(M) IN
               IF p = 0 THEN C0
               ELSE LET S == SwapTop(M, p)
                        d == CMul(S[1][1], Det(Elim(S)))
                    IN IF p = 1 THEN d ELSE CNeg(d)
(* Rank of a matrix with exact entries. *)
RECURSIVE Rank(_)
Rank(M) == IF Rows(M) = 0 \/ Cols(M) = 0 THEN 0
           ELSE LET p == PivotRow(M) IN
                IF p = 0 THEN IF Cols(M) = 1 THEN 0
                              ELSE Rank(TLCEval([i \in 1..Rows(M) |-> Tail(M[i])]))
                ELSE IF Cols(M) = 1 THEN 1
                ELSE 1 + Rank(Elim(SwapTop(M, p)))
(* Solution of A x = b for nonsingular A, by elimination of the first row.  *)
RECURSIVE SolveAug(_)
SolveAug(M) == \* M = [A | B], rows n, cols n + m ; result n x m
  LET n == Rows(M) m == Cols(M) - Rows(M) IN
  LET S == SwapTop(M, PivotRow(M)) IN
  IF n = 1 THEN <<TLCEval([j \in 1..m |-> CDiv(S[1][1 + j], S[1][1])])>>
  ELSE LET R == SolveAug(Elim(S))
           top == TLCEval([j \in 1..m |->
                     CDiv(CSub(S[1][n + j], SumOver(n - 1, LAMBDA k : CMul(S[1][1 + k], R[k][j]))), S[1][1])])
       IN <<top>> \o R
Inv(M) == SolveAug(TLCEval([i \in 1..Rows(M) |-> M[i] \o Id(Rows(M))[i]]))

(* ------------------------------------------------------------------------ *)
(* Judging recorded arrays.  A recorded output is                            *)
(*   [err |-> "", shape |-> <<..>>, kind |-> "c"|"f"|"i"|.., data |-> <<..>>]*)
(* with data flat in row-major order.                                        *)
Tol2 == CMul(Tenm(14), CInt(1))                      \* (1e-7)^2
Floor2 == Tenm(8)                                    \* (1e-4)^2, smallest scale
CloseTo(o, x, scale2, t2) == /\ IsNum(o) /\ IsNum(x)
                             /\ CLeq(CAbs2(CSub(o, x)), CMul(t2, scale2))
SeqClose(obs, ex, t2) ==
  /\ Len(obs) = Len(ex)
  /\ LET s2 == CMax(MaxAbs2(ex), Floor2) IN
     \A i \in 1..Len(ex) : CloseTo(obs[i], ex[i], s2, t2)
(* verdict of one recorded array against exact flat data *)
Judged(out, shape, ex, t2) ==
  IF out.err # "" THEN "raised " \o out.err
  ELSE IF out.shape # shape THEN "shape"
  ELSE IF \E i \in 1..Len(out.data) : out.data[i] = NaN THEN "non-finite value"
  ELSE IF SeqClose(out.data, ex, t2) THEN "ok" ELSE "value"
(* integers: exact equality *)
JudgedInt(out, shape, ex) ==
  IF out.err # "" THEN "raised " \o out.err
  ELSE IF out.shape # shape THEN "shape"
  ELSE IF out.data = ex THEN "ok" ELSE "value"
(* First clause that fails, in order; each clause is <<name, verdict>>.      *)
RECURSIVE FirstBad(_)
FirstBad(cs) == IF Len(cs) = 0 THEN "ok"
                ELSE IF Head(cs)[2] = "ok" THEN FirstBad(Tail(cs))
                ELSE Head(cs)[1] \o ": " \o Head(cs)[2]
Clause(name, b) == <<name, IF b THEN "ok" ELSE "violated">>
(* broadcasting: entry t (from 1) of a batched argument whose own batch is   *)
(* aligned with the trailing batch dimensions of the result                  *)
Bc(items, t) == items[((t - 1) % Len(items)) + 1]
SProd(sh) == FoldLeft(LAMBDA a, b : a * b, 1, sh)
=============================================================================
