---------------------------- MODULE CoordChange ----------------------------
(* How local quantities on the variety change with the affine patch and the   *)
(* dependent coordinate.  h is a homogeneous point on the variety.            *)
EXTENDS AlgMetric
(* d (local coordinates in patch q, dependent e) / d (local in p, dependent d) *)
LocChange(v, h, par, p, d, q, e) ==
  LET z == AffOf(h, p)
      E == EmbedJac(GradAff(v, z, par, p), d)
      W == ChartJac(z, p, q)
      keep(s) == IF s <= e THEN s ELSE s + 1
  IN Mat(Rows(E), Rows(E), LAMBDA r, s : SumOver(Cols(E), LAMBDA i : CMul(E[r][i], W[keep(s)][i])))
(* covariant tensors *)
Moved(W, g) == MMul(W, MMul(g, MH(W)))
(* exp(pi k K) |h_p|^2k and eta |h_p|^2(deg - n) do not depend on the patch *)
PotInv(h, p, k, ek) == CMul(ek, CPow(CAbs2(h[p + 1]), k))
EtaInv(h, p, n, deg, eta) == IF deg >= n THEN CMul(eta, CPow(CAbs2(h[p + 1]), deg - n))
                             ELSE CDiv(eta, CPow(CAbs2(h[p + 1]), n - deg))
=============================================================================
