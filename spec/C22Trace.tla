------------------------------ MODULE C22Trace ------------------------------
EXTENDS TraceBase, ArrayOps
(* every input array is recorded exactly; kept = inputs unchanged afterwards  *)
S0(t) == [q \in 1..3 |-> [from |-> <<>>, got |-> <<>>]]
Exact(out, shape, ex) == Judged(out, shape, ex, C0)
RowsOf(data, n) == Blocks(data, n)
JPure(e) == LET kept == Clause("inputs kept", e.kept) IN
  CASE e.op = "pop" ->
     LET rows == IF e.w = 0 THEN [k \in 1..e.n |-> <<e.a[k]>>] ELSE Blocks(e.a, e.w)
         tail == IF e.w = 0 THEN <<>> ELSE <<e.w>>
     IN FirstBad(<<kept, <<"popped value", Exact(e.val, tail, PopVal(rows, e.i))>>,
                   <<"remaining values", Exact(e.rest, <<e.n - 1>> \o tail, Flat(PopRest(rows, e.i)))>>>>)
  [] e.op = "insert" -> FirstBad(<<kept, <<"insert", Exact(e.out, <<e.n + Len(e.v)>>, InsertVals(e.a, e.v, e.i))>>>>)
  [] e.op = "inscol" ->
     LET m == IF e.m = 0 THEN 1 ELSE e.m IN
     FirstBad(<<kept, <<"insert column", Exact(e.out, <<e.r, e.n + m>>,
                   Flat(InsertCols(Blocks(e.a, e.n), Blocks(e.v, m), e.i)))>>>>)
  [] e.op = "flat" ->
     LET d == IF e.d = 0 THEN 1 ELSE e.d
         sz == SProd(e.shape)
         conj == IF e.c = "explicit" THEN e.zc ELSE VConj(e.a)
     IN FirstBad(<<kept, <<"flattened", Exact(e.flat, <<sz, d>>, e.a)>>,
          <<"flattened conjugate", IF e.c = "no" THEN "ok" ELSE Exact(e.flatc, <<sz, d>>, conj)>>,
          <<"old shape", JudgedInt(e.old, <<Len(e.shape)>>, e.shape)>>,
          <<"unflattened", Exact(e.back, e.shape \o <<d>>, e.a)>>,
          <<"unflattened scalars", Exact(e.backs, e.shape, [k \in 1..sz |-> e.a[(k - 1) * d + 1]])>>,
          <<"unflattened tuple", Exact(e.backt, e.shape \o <<d, 1>>, e.a)>>>>)
  [] e.op = "shuffle" ->
     LET ax == Pos(Len(e.shape), e.ax) - 1 IN
     FirstBad(<<kept, <<"shuffle", IF e.out.err # "" THEN e.out.err ELSE IF e.out.shape # e.shape THEN "shape" ELSE "ok">>,
        Clause("permutes the axis only", e.out.err # "" \/ IsShuffle(e.a, e.out.data, e.shape, ax)),
        Clause("same key gives the same order", e.again = e.out),
        Clause("the order changes", e.out.data # e.a),
        Clause("another key gives another order", e.other.data # e.out.data)>>)
  [] e.op = "binom" -> FirstBad(<<<<"binomials", Exact(e.out, <<e.n + 1>>, [k \in 1..(e.n + 1) |-> ChooseF(e.n, k - 1)])>>>>)
  [] e.op = "prod" ->
     FirstBad(<<kept, <<"product", Exact(e.out, IF e.n = 0 THEN <<>> ELSE e.shape,
        [k \in 1..(IF e.n = 0 THEN 1 ELSE SProd(e.shape)) |-> CProd([j \in 1..e.n |-> e.vals[j][k]])])>>>>)
(* key sequences: three interleaved sequences, sequences with the same origin *)
(* deliver the same keys at the same positions, no key twice                  *)
JStep(e, s) ==
  CASE e.op = "newseq" -> [v |-> "ok", st |-> [s EXCEPT ![e.q] = [from |-> e.from, got |-> <<>>]]]
    [] e.op = "nextkey" ->
       LET me == s[e.q]
           k == Len(me.got) + 1
           got == Append(me.got, e.out.data)
           t == [s EXCEPT ![e.q].got = got]
       IN [v |-> FirstBad(<<<<"next key", IF e.out.err = "" THEN "ok" ELSE e.out.err>>,
             Clause("key repeated", \A j \in 1..Len(me.got) : me.got[j] # e.out.data),
             Clause("sequence not determined by its origin", \A q \in 1..3 :
                 (s[q].from = me.from /\ Len(s[q].got) >= k) => s[q].got[k] = e.out.data)>>), st |-> t]
    [] OTHER -> [v |-> JPure(e), st |-> s]
=============================================================================
