------------------------------- MODULE HomPoly -------------------------------
(* Homogeneous polynomials in one or several vector variables; affine patches *)
(* are 0-based positions, one per variable.                                   *)
EXTENDS PolyObj
Dims(g) == [k \in 1..Len(g.vs) |-> Len(g.vs[k].idx)]
(* homogeneous vectors from affine ones; patch <<>>: already homogeneous *)
HomArgs(x, patch) == IF patch = <<>> THEN x ELSE [k \in 1..Len(x) |-> Ins(x[k], patch[k] + 1, C1)]
HomVals(g, T, x, y, patch) == OVals(T, LAMBDA s : Bind(g, HomArgs(x, patch), y, s))
PatchIndex(g, patch) == LET d == Dims(g) IN
   FoldLeft(LAMBDA acc, k : [i |-> acc.i + patch[k] * acc.m, m |-> acc.m * d[k]], [i |-> 0, m |-> 1], Range0(Len(patch))).i
AffGroup(g, patch) == [g EXCEPT !.vs = [k \in 1..Len(g.vs) |-> [g.vs[k] EXCEPT !.idx = Drop(@, patch[k] + 1)]]]
GroupDeg(t, v) == LET q == VarSyms(v) IN FoldLeft(LAMBDA a, k : a + Exp(t.m, q[k]), 0, Range0(Len(q)))
IsHom(g, T) == \A k \in 1..Len(g.vs) : \A i, j \in 1..Len(T) : GroupDeg(T[i], g.vs[k]) = GroupDeg(T[j], g.vs[k])
=============================================================================
