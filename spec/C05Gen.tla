------------------------------- MODULE C05Gen -------------------------------
(* Registry of polynomial objects; each step combines earlier ones.           *)
EXTENDS PolyLib, PolyAlg
VARIABLES objs, hist, base
vars == <<objs, hist, base>>
Depth == Pick2(3, 4)
Groups == << G(<<V("z", <<0, 1, 2>>)>>, <<"psi", "alpha">>),
             G(<<V("z", <<1, 3>>)>>, <<"alpha">>),
             G(<<Sc("x"), V("z", <<0, 4>>)>>, <<"t">>),
             G(<<V("y", <<0, 1>>), V("z", <<2>>)>>, <<"psi">>),
             G(<<V("y", <<3>>), Sc("x")>>, <<>>),
             G(<<Sc("x")>>, <<"t", "alpha">>),
             G(<<V("z", <<0, 1, 2>>)>>, <<"psi">>),
             G(<<V("z", <<0, 1, 2, 3>>)>>, <<>>),
             G(<<V("z", <<2, 5, 11>>)>>, <<"tau">>) >>
Kind(b) == IF b = 7 THEN "dwork" ELSE IF b = 8 THEN "fermat" ELSE IF b = 9 THEN "hom" ELSE "poly"
Unit(i, d) == <<"z", i, d>>
T0(b) == CASE b = 7 -> [k \in 1..3 |-> [c |-> <<1, 0, 1>>, m |-> <<Unit(k - 1, 3)>>]] \o
                       <<[c |-> <<-5, 0, 1>>, m |-> <<Unit(0, 1), Unit(1, 1), Unit(2, 1), <<"psi", -1, 1>>>>]>>
           [] b = 8 -> [k \in 1..4 |-> [c |-> <<1, 0, 1>>, m |-> <<Unit(k - 1, 4)>>]]
           [] OTHER -> RTerms(Groups[b], <<b, 5>>, 2 + (b % 2))
Desc(b) == [kind |-> Kind(b), g |-> Groups[b], T |-> T0(b)]
Obj(b) == [g |-> Groups[b], T |-> AsSeq(NumTerms(T0(b)))]
Op(k, o, i, j, s, n) == [k |-> k, o |-> o, i |-> i, j |-> j, s |-> s, n |-> n]
Ks == {"add", "sub", "mul"}
SymsFor(g) == (IF Pos1(VarNames(g), "z") > 0 THEN {<<"z", 1>>, <<"z", 7>>} ELSE {})
              \cup (IF Pos1(VarNames(g), "x") > 0 THEN {<<"x", -1>>} ELSE {})
              \cup {<<"alpha", -1>>, <<"kappa", -1>>}
Nums == {<<2, 0, 1>>, <<-3, 0, 2>>, <<1, 2, 1>>, <<0, -1, 1>>, <<0, 0, 1>>}
SVar(o) == LET q == GroupSyms(o.g) IN {q[k] : k \in 1..Len(q)}
None == <<"", -1>>
Zero == <<0, 0, 1>>
(* the choice at each step is thinned out pseudo-randomly from the history *)
Key(op) == [k |-> IF op.k = "add" THEN 1 ELSE IF op.k = "sub" THEN 2 ELSE IF op.k = "mul" THEN 3 ELSE 4,
            x |-> op.i * 7 + op.j * 13 + (op.s[2] + 1) * 5 + Len(op.s[1]) + op.n[1] * 3 + op.n[2] + 20]
Enc(h) == FoldLeft(LAMBDA a, op : a \o <<Key(op).k, Key(op).x>>, <<>>, h)
Kept(h) == Len(h) = 1 \/ RndN(<<base[1], base[2]>> \o Enc(h), 1000) < Pick2(<<0, 3, 20>>, <<0, 12, 20, 18>>)[Len(h)]
Ops(obs) == {Op(k, "poly", i, j, None, Zero) : k \in Ks, i \in {Len(obs), 1}, j \in 1..Len(obs)}
       \cup UNION {{Op(k, "sym", i, 0, s, Zero) : k \in Ks, s \in SymsFor(obs[i].g)} : i \in {Len(obs)}}
       \cup {Op(k, "num", Len(obs), 0, None, n) : k \in Ks, n \in Nums}
       \cup UNION {{Op("diff", "var", i, 0, s, Zero) : s \in SVar(obs[i])} : i \in {Len(obs)}}
Small(o) == Len(o.T) <= 40 /\ \A k \in 1..Len(o.T) : \A t \in o.T[k].m : t[3] <= 9
ToNum(op) == [op EXCEPT !.n = GNum(op.n)]
Init == \E b1, b2 \in 1..Len(Groups) : base = <<b1, b2>> /\ objs = <<Obj(b1), Obj(b2)>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops(objs) :
             /\ Kept(Append(hist, op))
             /\ hist' = Append(hist, op)
             /\ objs' = Append(objs, Apply(objs, ToNum(op)))
             /\ Small(objs'[Len(objs')])
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
Emitted == Len(hist) >= 1 /\ RndN(<<3, base[1], base[2]>> \o Enc(hist), 10) < Pick2(<<1, 5, 10>>, <<2, 5, 10, 10>>)[Len(hist)]
           => Emit([op |-> "alg", base |-> [k \in 1..2 |-> Desc(base[k])], hist |-> hist,
                    sub |-> [k \in 1..Len(hist) |-> RndN(<<7, k>> \o Enc(hist), 2) = 1],   \* spell subscripts z_1
                    vals |-> [b \in 1..3 |-> SymVals(G(<<V("z", <<0, 1, 2, 3, 4, 5, 7, 11>>), V("y", <<0, 1, 3>>), Sc("x")>>,
                                <<"psi", "alpha", "t", "tau", "kappa">>), <<b, base[1], base[2], Len(hist)>>)][1]])
(* design: ring laws on the objects reached *)
N == Len(objs)
Commutes == N >= 3 => Equal(OMul(objs[N].T, objs[1].T), OMul(objs[1].T, objs[N].T))
Leibniz == N >= 3 => \A s \in {<<"z", 1>>, <<"x", -1>>} :
    Equal(ODiff(OMul(objs[N].T, objs[2].T), s), OAdd(OMul(ODiff(objs[N].T, s), objs[2].T), OMul(objs[N].T, ODiff(objs[2].T, s))))
Ascending == \A o \in {objs[k] : k \in 1..N} : \A k \in 1..Len(o.g.vs) :
    \A i \in 1..(Len(o.g.vs[k].idx) - 1) : o.g.vs[k].idx[i] < o.g.vs[k].idx[i + 1]
Covered == \A o \in {objs[k] : k \in 1..N} : PolySyms(o.T) \subseteq Bound(o.g)
=============================================================================
