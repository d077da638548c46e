------------------------------ MODULE Training ------------------------------
(* The training run: T steps, the state is logged after steps 1, 1 + every,   *)
(* 1 + 2 every, ...; afterwards the moduli grid is evaluated in slices.       *)
EXTENDS Accuracy, Cholesky
NLog(T, every) == IF T = 0 THEN 0 ELSE 1 + ((T - 1) \div every)
LogStep(r, every) == (r - 1) * every + 1
(* the machine *)
Run0(every) == [every |-> every, t |-> 0, losses |-> <<>>, rows |-> <<>>, disk |-> [losses |-> <<>>, rows |-> <<>>, params |-> -1], done |-> FALSE]
RunStep(s) == LET t == s.t + 1 o == [s EXCEPT !.t = t, !.losses = Append(@, t)]
                  x == [o EXCEPT !.rows = Append(@, t)] IN
              IF (t - 1) % s.every # 0 THEN o ELSE [x EXCEPT !.disk = [losses |-> x.losses, rows |-> x.rows, params |-> t]]
RunEnd(s) == [s EXCEPT !.disk = [@ EXCEPT !.losses = s.losses, !.params = s.t], !.done = TRUE]
(* grid: coordinates 2k-1, 2k are real and imaginary part of modulus k; index *)
(* runs with the last coordinate fastest                                      *)
RECURSIVE IPw(_, _)
IPw(b, e) == IF e = 0 THEN 1 ELSE b * IPw(b, e - 1)
GridCoord(r, g, j) == CAdd(CNeg(r), CMul(r, CFrac(2 * j, 0, g - 1)))      \* j = 0..g-1
GridIdx(i, c, m, g) == ((i - 1) \div IPw(g, m - c)) % g                   \* coordinate c of m of flat index i
GridSize(np, g) == IPw(g, 2 * np)
Modulus(i, bounds, g) == LET np == Len(bounds) m == 2 * np IN Vec(np, LAMBDA k :
   CAdd(GridCoord(bounds[k], g, GridIdx(i, 2 * k - 1, m, g)), CMul(CIu, GridCoord(bounds[k], g, GridIdx(i, 2 * k, m, g)))))
(* slices of the evaluation *)
Slices(n, b) == [k \in 1..((n + b - 1) \div b) |-> <<(k - 1) * b + 1, IF k * b < n THEN k * b ELSE n>>]
(* the metric the network gives *)
NetH(hpar, N) == DecodePar(hpar, N)
NetHDir(hpar, d, N) == DecodeDir(hpar, d, N)
Inside(par, bounds) == \A k \in 1..Len(par) : LET b2 == CMul(bounds[k], bounds[k]) IN
   CLeq(CAbs2(CRe(par[k])), b2) /\ CLeq(CAbs2(CIm(par[k])), b2)
=============================================================================
