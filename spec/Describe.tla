------------------------------ MODULE Describe ------------------------------
(* What a polynomial or variety object says about itself: call signature,     *)
(* positions, symbols, printed text.  A grouping is as in PolyObj.            *)
EXTENDS PolyObj
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Names(g) == VarNames(g)
(* call signature: variables in order, then the parameters *)
SigOf(g) == Names(g) \o <<"params">>
(* symbol of a subscripted variable: subscript appended to the name *)
SymText(s) == IF s[2] = -1 THEN s[1] ELSE s[1] \o ToString(s[2])
SymTexts(v) == [k \in 1..Len(VarSyms(v)) |-> SymText(VarSyms(v)[k])]
Grouped(g) == [k \in 1..Len(g.vs) |-> [sc |-> g.vs[k].sc, names |-> SymTexts(g.vs[k])]]
Flattened(g) == FoldLeft(LAMBDA a, v : a \o SymTexts(v), <<>>, g.vs)
(* positions as sets of <<name, position>> counted from zero *)
Positions(s) == {<<s[k], k - 1>> : k \in 1..Len(s)}
(* printed head: type, variables with subscripts, parameters if there are any *)
SubText(n, i) == n \o "_" \o ToString(i)
VarText(v) == IF v.sc THEN v.name ELSE "[" \o Join([k \in 1..Len(v.idx) |-> SubText(v.name, v.idx[k])], ", ") \o "]"
TextHead(type, g) == type \o "(" \o Join([k \in 1..Len(g.vs) |-> VarText(g.vs[k])], ", ")
                 \o (IF g.ps = <<>> THEN "" ELSE ", params=[" \o Join(g.ps, ", ") \o "]") \o ")"
(* the same in typeset form; tex is a sequence of <<symbol, typeset name>>    *)
TexOf(tex, s) == LET q == SelectSeq(tex, LAMBDA x : x[1] = s) IN IF q = <<>> THEN "?" ELSE q[1][2]
TexVar(tex, v) == IF v.sc THEN TexOf(tex, v.name)
                  ELSE "[" \o Join([k \in 1..Len(v.idx) |-> TexOf(tex, v.name) \o "_{" \o ToString(v.idx[k]) \o "}"], ",") \o "]"
TexHead(type, g, tex) == "\\operatorname{" \o type \o "}(" \o Join([k \in 1..Len(g.vs) |-> TexVar(tex, g.vs[k])], ",")
                 \o (IF g.ps = <<>> THEN "" ELSE ", \\text{params}=[" \o Join([k \in 1..Len(g.ps) |-> TexOf(tex, g.ps[k])], ",") \o "]") \o ")"
(* varieties: n homogeneous coordinates, one equation *)
VarietyText(type, n, poly) == type \o "(dim=" \o ToString(n - 2) \o ") in CP^" \o ToString(n - 1) \o ": " \o poly
VarietyTex(type, n, poly) == "\\operatorname{" \o type \o "}(dim=" \o ToString(n - 2) \o ") \\subset \\mathbb{CP}^" \o ToString(n - 1) \o ": " \o poly
Dims(n, np) == [complex |-> n, projective |-> n - 1, variety |-> n - 2, dim |-> n - 2, par |-> np, defining |-> 1]
=============================================================================
