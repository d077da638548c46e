------------------------------- MODULE Accept -------------------------------
(* Which declarations and calls fit together.  A declaration names the        *)
(* symbols of an expression (set of <<name, subscript>>, subscript -1: none)  *)
(* and optionally the variables, the parameters and the subscripts of the     *)
(* variables.  Absent options are written as [given |-> FALSE].               *)
EXTENDS PolyObj
Opt(x) == [given |-> TRUE, v |-> x]
NoOpt == [given |-> FALSE, v |-> <<>>]
In(x, s) == \E k \in 1..Len(s) : s[k] = x
SubsOf(S, n) == {s[2] : s \in {t \in S : t[1] = n}}
(* a name is used with subscripts throughout or never *)
Uniform(S, n) == ~(-1 \in SubsOf(S, n) /\ \E i \in SubsOf(S, n) : i # -1)
IsPar(d, s) == s[2] = -1 /\ d.pars.given /\ In(s[1], d.pars.v)
VarSymsOf(d) == {s \in d.syms : ~IsPar(d, s) /\ (~d.names.given \/ In(s[1], d.names.v))}
Rest(d) == {s \in d.syms : ~IsPar(d, s) /\ d.names.given /\ ~In(s[1], d.names.v)}
VNames(d) == IF d.names.given THEN {d.names.v[k] : k \in 1..Len(d.names.v)} ELSE {s[1] : s \in VarSymsOf(d)}
(* subscripts declared for the k-th variable: <<>> stands for a scalar        *)
Fits(d) ==
  /\ VNames(d) # {}                                  \* there is something to be a polynomial in
  /\ (d.idx.given => d.names.given)
  /\ (Rest(d) # {} => ~d.pars.given)
  /\ \A s \in VarSymsOf(d) : Uniform(VarSymsOf(d), s[1])
  /\ d.idx.given => \A k \in 1..Len(d.names.v) : LET u == SubsOf(VarSymsOf(d), d.names.v[k]) IN
        IF d.idx.v[k] = <<>> THEN u \subseteq {-1} ELSE \A i \in u : In(i, d.idx.v[k])
(* the grouping that follows: set of variables and set of parameters; order   *)
(* is as given where it is given                                              *)
IdxOf(d, n) == IF d.idx.given THEN d.idx.v[CHOOSE k \in 1..Len(d.names.v) : d.names.v[k] = n]
               ELSE SortInts(SubsOf(VarSymsOf(d), n) \ {-1})
(* a symbol that is no variable is a parameter, subscript and all *)
WholeName(s) == IF s[2] = -1 THEN s[1] ELSE s[1] \o ToString(s[2])
PNames(d) == IF d.pars.given THEN {d.pars.v[k] : k \in 1..Len(d.pars.v)} ELSE {WholeName(s) : s \in Rest(d)}
GroupOf(d) == [vs |-> {[name |-> n, sc |-> IdxOf(d, n) = <<>>, idx |-> IdxOf(d, n)] : n \in VNames(d)}, ps |-> PNames(d)]
(* ------------------------------------------------------------------ calls *)
(* c: nv variables, np parameters; pos variables given by position, the rest  *)
(* by name except for miss of them; extra positional arguments; parameters    *)
(* "no", "pos" (after all variables), "kw" and how many of them               *)
CallFits(c) ==
  /\ c.miss = 0
  /\ c.extra = 0
  /\ (c.par = "no" => c.np = 0 \/ c.mode = "symbolic")
  /\ (c.par # "no" => c.count = c.np)
(* ------------------------------------------------- shapes and kinds of input *)
InsertFits(ra, rv) == ra = 1 /\ rv \in {0, 1}
ColumnFits(rm, rc) == rm = 2 /\ rc \in {1, 2}
(* coordinates of a point: affine if the patch is given, else homogeneous     *)
CoordsFit(n, patch, len) == len = (IF patch THEN n - 1 ELSE n)
(* operands a and b share the name x: scalars and vectors do not mix          *)
MixFits(sa, sb) == sa = sb
=============================================================================
