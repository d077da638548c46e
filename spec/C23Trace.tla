------------------------------ MODULE C23Trace ------------------------------
EXTENDS PlotJudge, Training
S0(t) == <<>>
TF == Tenm(16)
TL == Tenm(10)
Seg(o, w, i) == SubSeq(o.data, (i - 1) * w + 1, i * w)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
MClose(A, B) == \A i \in 1..Len(A) : SeqClose(A[i], B[i], TL)
(* a recorded accuracy evaluation c = [par, h, out, count] that gives value x  *)
(* for modulus par with the matrix H                                          *)
Explains(c, par, x, H, count) == c.out = x /\ c.count = count /\ SeqClose(c.par, par, TF) /\ MClose(c.h, H)
JRun(e) ==
  LET T == e.steps n == NLog(T, e.every) IN
  IF e.err # "" THEN "run failed: " \o e.err
  ELSE IF T = 0 THEN "no training step"
  ELSE IF e.losses.err # "" \/ e.validation.err # "" \/ e.vparams.err # "" \/ e.params.err # "" THEN "artefact missing or unreadable"
  ELSE IF e.losses.shape # <<T>> THEN "losses: not one per step"
  ELSE IF e.validation.shape # <<n, e.vcount>> THEN "validation: not one row per logging step"
  ELSE IF e.vparams.shape # <<e.vcount, Len(e.bounds)>> THEN "validation parameters: shape"
  ELSE IF \E i \in 1..e.vcount : ~Inside(Seg(e.vparams, Len(e.bounds), i), e.bounds) THEN "validation parameters out of bounds"
  ELSE IF ~(e.params.shape = e.trained.shape /\ SeqClose(e.params.data, e.trained.data, TL)) THEN "saved parameters are not those of the trained network"
  ELSE "ok"
(* step t: the recorded loss is the mean over the parameter sets of the element *)
JStepLoss(e) ==
  LET one(b) == LET x == e.items[b] H == NetH(x.hpar, e.N)
                    eta == Vec(Len(x.zs), LAMBDA i : EtaAt(e.v, e.pm, e.k, H, x.zs[i], x.par, x.ps[i])) IN LossOf(eta, x.ws)
      m == RMean(Vec(Len(e.items), one))
  IN IF \E b \in 1..Len(e.items) : ~Inside(e.items[b].par, e.bounds) THEN "parameters out of bounds"
     ELSE IF Len(e.items) # e.sets \/ \E b \in 1..Len(e.items) : Len(e.items[b].zs) # e.points THEN "sizes of the training sample"
     ELSE IF e.loss.data[1] = NaN THEN "loss not finite"
     ELSE IF e.fn = "random" THEN "ok"
     ELSE IF CloseTo(e.loss.data[1], m, CMax(C1, CAbs2(m)), TL) THEN "ok" ELSE "recorded loss"
(* the gradient of size s given to the optimiser: along it the loss changes   *)
(* at the rate s                                                              *)
JGrad(e) ==
  LET one(b) == LET x == e.items[b] H == NetH(x.hpar, e.N) V == NetHDir(x.hpar, e.dirs[b], e.N)
                    j == Vec(Len(x.zs), LAMBDA i : EtaJet(e.v, e.pm, e.k, H, V, x.zs[i], x.par, x.ps[i]))
                IN LossD(Vec(Len(j), LAMBDA i : j[i][1]), Vec(Len(j), LAMBDA i : j[i][2]), x.ws)
  IN IF e.size = NaN THEN "gradient not finite"
     ELSE IF e.dirs = <<>> THEN "no gradient"
     ELSE IF CloseTo(RMean(Vec(Len(e.items), one)), e.size, CMax(CMul(e.size, e.size), Tenm(4)), Tenm(8)) THEN "ok" ELSE "not the gradient of the loss"
(* fresh randomness in every step                                             *)
JKeys(e) == IF e.distinct < e.steps THEN "steps share their randomness" ELSE "ok"
(* a run is determined by its seed                                            *)
JAgain(e) ==
  LET Same(a, b) == a.err = b.err /\ a.shape = b.shape /\ SeqClose(a.data, b.data, TL) IN
  IF e.err # "" THEN "run failed: " \o e.err
  ELSE IF e.fn = "same" THEN (IF \A i \in 1..Len(e.first) : Same(e.first[i], e.second[i]) THEN "ok" ELSE "a run with the same seed differs")
  ELSE IF \E i \in 1..Len(e.first) : Same(e.first[i], e.second[i]) THEN "runs with different seeds agree" ELSE "ok"
JLog(e) ==
  IF \E i \in 1..Len(e.row.data) : ~\E c \in 1..Len(e.calls[i]) :
        Explains(e.calls[i][c], e.vpar[i], e.row.data[i], NetH(e.hpar[i], e.N), e.count) THEN "validation row is not the accuracy of the network at the validation parameters"
  ELSE IF e.r > 1 /\ ~(Len(e.disk.losses) >= LogStep(e.r - 1, e.every) /\ Prefix(e.disk.losses, e.losses)) THEN "losses on disk between logging steps"
  ELSE IF e.r > 1 /\ ~(Len(e.disk.rows) >= e.r - 1 /\ Prefix(e.disk.rows, e.rows)) THEN "validation on disk between logging steps"
  ELSE IF e.r > 1 /\ ~(e.disk.params >= LogStep(e.r - 1, e.every)) THEN "parameters on disk between logging steps"
  ELSE "ok"
JGrid(e) ==
  LET np == Len(e.bounds) m == 2 * np n == GridSize(np, e.g) IN
  IF e.grid.err # "" THEN "grid missing"
  ELSE IF e.grid.shape # <<m>> \o [c \in 1..m |-> e.g] THEN "grid shape"
  ELSE IF \E c \in 1..m, i \in 1..n : LET b == e.bounds[(c + 1) \div 2] IN
            ~CloseTo(e.grid.data[(c - 1) * n + i], GridCoord(b, e.g, GridIdx(i, c, m, e.g)), CMul(b, b), TF) THEN "grid coordinates"
  ELSE IF e.sigmas.shape # [c \in 1..m |-> e.g] THEN "shape of the accuracies"
  ELSE IF \E i \in 1..n : ~\E c \in 1..Len(e.calls[i]) :
            Explains(e.calls[i][c], Modulus(i, e.bounds, e.g), e.sigmas.data[i], NetH(e.hpar[i], e.N), e.count) THEN "accuracy is not that of the trained network at the grid point"
  ELSE IF ~e.plots THEN "plots missing"
  ELSE "ok"
JNoGrid(e) == IF e.present THEN "evaluation ran although switched off" ELSE "ok"
JStep(e, s) == [v |-> CASE e.op = "run" -> JRun(e) [] e.op = "step" -> JStepLoss(e) [] e.op = "grad" -> JGrad(e) [] e.op = "keys" -> JKeys(e) [] e.op = "again" -> JAgain(e) [] e.op = "log" -> JLog(e)
                        [] e.op = "grid" -> JGrid(e) [] e.op = "nogrid" -> JNoGrid(e) [] e.op = "plot" -> JPlot(e), st |-> s]
=============================================================================
