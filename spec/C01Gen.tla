------------------------------- MODULE C01Gen -------------------------------
(* Histories of chart conversions: all chains up to the depth over all       *)
(* charts, from a pool of points with zeros and modulus ties, plus batch     *)
(* layouts and index translations.  Invariants: the point is kept and every  *)
(* chain agrees with the direct conversion.                                  *)
EXTENDS GenBase, Charts
VARIABLES kind, scn, s, depth
vars == <<kind, scn, s, depth>>
MaxDim == Pick2(5, 7)
Depth(n) == IF Thorough THEN (IF n <= 3 THEN 4 ELSE 3) ELSE (IF n <= 3 THEN 3 ELSE 2)
Zero == <<0, 0, 1>>
PoolSize == Pick2(4, 6)
Pt(n, k) ==
  CASE k = 1 -> [i \in 1..(n+1) |-> OffG(<<n, k, i>>)]
    [] k = 2 -> [i \in 1..(n+1) |-> IF i = RndI(<<n, k, 77>>, 1, n+1) THEN NzG(<<n, k, i>>)
                                    ELSE IF RndN(<<n, k, i, 5>>, 3) = 0 THEN Zero ELSE NzG(<<n, k, i>>)]
    [] k = 3 -> [i \in 1..(n+1) |-> RndOf(<<n, k, i>>, <<<<3,4,1>>, <<5,0,1>>, <<0,-5,1>>, <<-4,3,1>>>>)]
    [] k = 4 -> [i \in 1..(n+1) |-> LET g == NzG(<<n, k, i>>) IN
                                    IF i % 2 = 0 THEN <<g[1] * 1000, g[2] * 1000, 1>> ELSE <<g[1], g[2], 1, RndOf(<<n, k, i, 3>>, <<-12, -30, -45, -70, 40>>)>>]
    [] k = 5 -> [i \in 1..(n+1) |-> IF i = RndI(<<n, k, 78>>, 1, n+1) THEN <<1, 0, 1>> ELSE Zero]
    [] OTHER -> [i \in 1..(n+1) |-> NzG(<<n, k, i>>)]
Init ==
  \/ \E n \in 1..MaxDim, k \in 1..PoolSize :
       /\ kind = "walk" /\ depth = 0
       /\ s = HomState(GVec(Pt(n, k)))
       /\ scn = [op |-> "walk", pt |-> Pt(n, k), style |-> (n + k) % 3, steps |-> <<>>]
  \/ \E n \in 1..MaxDim, fn \in {"to_affine", "auto", "to_hom", "change"}, lay \in 1..7 :
       /\ kind = "done" /\ depth = 0 /\ s = HomState(<<C1>>)
       /\ scn = [op |-> "batch", fn |-> fn, n |-> n, lay |-> lay,
                 pts |-> [b \in 1..6 |-> [i \in 1..(n+1) |-> IF lay % 3 = 0 THEN NzG(<<n, lay, b, i, 9>>) \o <<RndI(<<n, lay, b, i, 10>>, -60, 20)>>
                                                       (* all of them very small or very large: squares leave the range *)
                                                       ELSE IF lay % 3 = 2 /\ fn \in {"to_affine", "auto"} THEN NzG(<<n, lay, b, i, 9>>) \o <<RndOf(<<n, lay, b, 11>>, <<-560, 0, 520>>) + RndI(<<n, lay, b, i, 10>>, -9, 9)>>
                                                       ELSE NzG(<<n, lay, b, i, 9>>)]],
                 ps |-> [b \in 1..6 |-> RndI(<<n, lay, b, 33>>, 0, n)],
                 qs |-> [b \in 1..6 |-> RndI(<<n, lay, b, 34>>, 0, n)]]
  \/ \E n \in 1..MaxDim :
       /\ kind = "done" /\ depth = 0 /\ s = HomState(<<C1>>)
       /\ scn = [op |-> "index", n |-> n, style |-> n % 3]
AddStep(x) == scn' = [scn EXCEPT !.steps = Append(@, x)]
N == Len(s.hom)
ToAffine == /\ s.rep = -1
            /\ \E p \in 0..(N - 1) : /\ InChart(s.hom, p) /\ s' = DoToAffine(s, p)
                                     /\ AddStep([op |-> "to_affine", q |-> p])
Auto == /\ s.rep = -1
        /\ \E p \in BestCharts(s.hom) : /\ p = CHOOSE q \in BestCharts(s.hom) : TRUE
                                        /\ s' = DoToAffine(s, p) /\ AddStep([op |-> "auto", q |-> -1])
ToHom == /\ s.rep # -1 /\ s' = DoToHom(s) /\ AddStep([op |-> "to_hom", q |-> s.rep])
Change == /\ s.rep # -1
          /\ \E q \in 0..(N - 1) : /\ InChart(s.hom, q) /\ s' = DoRechart(s, q)
                                   /\ AddStep([op |-> "change", q |-> q])
(* after an automatic choice among ties the harness decides the chart, so    *)
(* the generated continuation only says what to do next                      *)
Next == /\ kind = "walk" /\ depth < Depth(N - 1) /\ depth' = depth + 1 /\ kind' = kind
        /\ (ToAffine \/ Auto \/ ToHom \/ Change)
Spec == Init /\ [][Next]_vars
Emitted == (kind = "done" \/ depth = Depth(N - 1)) => Emit(scn)
Kept == PointKept(s)
ChainsAgree == kind = "walk" => Direct(s)
=============================================================================
