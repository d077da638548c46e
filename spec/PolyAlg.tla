------------------------------- MODULE PolyAlg -------------------------------
(* Arithmetic of polynomial objects [g |-> grouping, T |-> terms].  An        *)
(* operation is [k |-> "add"|"sub"|"mul"|"diff", i |-> left operand,          *)
(* o |-> "poly"|"sym"|"num"|"var", j |-> right operand, s |-> symbol,         *)
(* n |-> number].                                                             *)
EXTENDS PolyObj
Arith(k, S, T) == CASE k = "add" -> OAdd(S, T) [] k = "sub" -> OAdd(S, ONeg(T)) [] k = "mul" -> OMul(S, T)
Apply(objs, op) ==
  LET a == objs[op.i] IN
  CASE op.o = "poly" -> [g |-> Union2(a.g, objs[op.j].g), T |-> AsSeq(Arith(op.k, a.T, objs[op.j].T))]
    [] op.o = "sym" -> [g |-> WithSym(a.g, op.s), T |-> AsSeq(Arith(op.k, a.T, OSym(op.s)))]
    [] op.o = "num" -> [g |-> a.g, T |-> AsSeq(Arith(op.k, a.T, OConst(op.n)))]
    [] op.o = "var" -> [g |-> a.g, T |-> AsSeq(ODiff(a.T, op.s))]
=============================================================================
