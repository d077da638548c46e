------------------------------- MODULE C27Gen -------------------------------
EXTENDS GenBase, Accept
VARIABLES ph, scn
vars == <<ph, scn>>
Univ == {<<"x", -1>>, <<"x", 0>>, <<"x", 2>>, <<"y", 1>>, <<"a", -1>>, <<"b", -1>>}
NameOpts == {NoOpt, Opt(<<"x">>), Opt(<<"x", "y">>), Opt(<<"y", "x">>), Opt(<<"y">>)}
ParOpts == {NoOpt, Opt(<<>>), Opt(<<"a">>), Opt(<<"b", "a">>)}
IdxOpts(n) == {NoOpt} \cup {Opt(q) : q \in [1..n -> {<<>>, <<0>>, <<0, 2>>, <<0, 1, 2>>}]}
Decls == UNION {{[op |-> "declare", syms |-> S, names |-> n, pars |-> p, idx |-> i] : i \in IdxOpts(IF n.given THEN Len(n.v) ELSE 1)} :
            S \in {T \in SUBSET Univ : Cardinality(T) \in 1..Pick2(3, 4)}, n \in NameOpts, p \in ParOpts}
HashD(d) == Cardinality(d.syms) * 7 + (IF d.names.given THEN Len(d.names.v) * 3 ELSE 0) + (IF d.pars.given THEN Len(d.pars.v) + 5 ELSE 0)
           + (IF d.idx.given THEN Len(d.idx.v[1]) + (IF Len(d.idx.v) > 1 THEN 3 * Len(d.idx.v[2]) ELSE 0) ELSE 1)
           + (IF <<"x", 2>> \in d.syms THEN 11 ELSE 0) + (IF <<"y", 1>> \in d.syms THEN 5 ELSE 0) + (IF <<"b", -1>> \in d.syms THEN 1 ELSE 0)
Thin == Pick2(2, 1)
Form(d) == [d EXCEPT !.op = "declare"] @@ [form |-> <<"text", "expr", "dims">>[IF d.idx.given /\ HashD(d) % 2 = 0 /\ \A k \in 1..Len(d.idx.v) : d.idx.v[k] \in {<<0>>, <<0, 1, 2>>}
                                                                             THEN 3 ELSE (HashD(d) % 2) + 1]]
Calls == {[op |-> "call", nv |-> nv, np |-> np, pos |-> pos, miss |-> m, extra |-> x, par |-> p, count |-> c, mode |-> mo] :
            nv \in {1, 2}, np \in 0..2, pos \in 0..2, m \in 0..1, x \in 0..1, p \in {"no", "pos", "kw"}, c \in 0..3, mo \in {"numeric", "symbolic", "compiled"}}
CallOk(c) == /\ c.pos <= c.nv /\ c.pos + c.miss <= c.nv
             /\ (c.par = "pos" => c.pos = c.nv) /\ (c.extra = 1 => c.par = "pos")
             /\ (c.par = "no" => c.count = 0) /\ (c.par # "no" => c.count - c.np \in {-1, 0, 1})
             /\ ~(c.mode = "compiled" /\ c.par = "no" /\ c.np = 0)
             (* without any argument the expression itself is returned *)
             /\ ~(c.par = "no" /\ c.pos = 0 /\ c.nv = c.miss)
Kinds == {[op |-> "kind", fn |-> f, ok |-> b] : f \in {"hom_to_affine", "affine_to_hom", "change_chart old", "change_chart new", "pop"}, b \in BOOLEAN}
Ranks == {[op |-> "insert_1d", a |-> a, b |-> b] : a \in 1..3, b \in 0..2} \cup {[op |-> "insert_col", a |-> a, b |-> b] : a \in 1..3, b \in 1..3}
(* shapes that could be stretched to each other do not fit either            *)
ConjShapes == {<<2>>, <<3>>, <<1>>, <<3, 2>>, <<2, 2>>, <<1, 2>>, <<2, 3, 2>>}
Conj == {[op |-> "conjugates", fn |-> f, sa |-> a, sb |-> b, same |-> a = b] :
            f \in {"flatten_coord", "fs_metric", "fs_potential"}, a \in ConjShapes, b \in ConjShapes}
Coords == {[op |-> "coords", fn |-> f, n |-> n, patch |-> p, len |-> n + d] : f \in {"dwork", "fermat"}, n \in 3..5, p \in BOOLEAN, d \in (-2)..1}
          \cup {[op |-> "coords", fn |-> f, n |-> 3, patch |-> p, len |-> 3 + d] :
                f \in {"kahler_potential", "metric", "eta", "ricci", "ricci_scalar"}, p \in BOOLEAN, d \in (-2)..1}
MixS == {[op |-> "mix", fn |-> f, sa |-> a, sb |-> b] : f \in {"add", "sub", "mul", "add symbol", "sub symbol", "mul symbol"}, a \in BOOLEAN, b \in BOOLEAN}
Other == {[op |-> "other", fn |-> f[1], ok |-> f[2]] : f \in {
   <<"factor by a variable", TRUE>>, <<"factor by a component", TRUE>>, <<"factor by a parameter", FALSE>>,
   <<"differentiate by a component", TRUE>>, <<"differentiate by an unknown symbol", FALSE>>,
   <<"one-element array as factor", TRUE>>, <<"array as factor", FALSE>>,
   <<"variety of one variable", TRUE>>, <<"variety of two variables", FALSE>>,
   <<"homogeneous of vectors", TRUE>>, <<"homogeneous of a scalar", FALSE>>,
   <<"names as text", TRUE>>, <<"names as symbols", TRUE>>, <<"names mixed", FALSE>>,
   <<"sine", FALSE>>, <<"inverse", FALSE>>, <<"symbolic power", FALSE>>, <<"root", FALSE>>, <<"inverse of a parameter", FALSE>>,
   <<"missing value with powers", FALSE>>, <<"missing value without powers", TRUE>>, <<"missing value with powers, symbolic", FALSE>>,
   <<"two subscripts", FALSE>>, <<"subscript not a number", FALSE>>, <<"no subscript", TRUE>>,
   <<"Fermat of an expression", FALSE>>, <<"Dwork of an expression", FALSE>>,
   <<"network on a number", TRUE>>, <<"network on a vector", TRUE>>, <<"network on a batch", TRUE>>, <<"network on three dimensions", FALSE>>,
   <<"coefficient matrix of another size", FALSE>>, <<"coefficient matrix of the right size", TRUE>>} }
Rest2 == {c \in Calls : CallOk(c)} \cup Kinds \cup Ranks \cup Conj \cup Coords \cup MixS \cup Other
Init == ph = "pick" /\ \/ \E d \in Decls : HashD(d) % Thin = Seed % Thin /\ scn = Form(d)
                       \/ scn \in Rest2
Next == ph = "pick" /\ ph' = "emit" /\ scn' = scn
Spec == Init /\ [][Next]_vars
Emitted == ph = "emit" => Emit(scn)
(* design: more information never makes an ill-fitting declaration fit, and   *)
(* the grouping of a fitting one binds every symbol exactly once              *)
BindsOnce == ph = "emit" /\ scn.op = "declare" /\ Fits(scn) => LET g == GroupOf(scn) IN
   \A s \in scn.syms : LET byv == {v \in g.vs : v.name = s[1] /\ (IF v.sc THEN s[2] = -1 ELSE In(s[2], v.idx))}
                           byp == {p \in g.ps : p = WholeName(s)} IN Cardinality(byv) + Cardinality(byp) = 1
Monotone == ph = "emit" /\ scn.op = "declare" /\ Fits(scn) /\ scn.names.given => Fits([scn EXCEPT !.idx = NoOpt]) /\ Fits([scn EXCEPT !.pars = NoOpt])
=============================================================================
