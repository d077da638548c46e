------------------------------ MODULE C26Trace ------------------------------
EXTENDS PlotJudge
S0(t) == 0
JStep(e, s) == [st |-> s, v |-> IF e.spill # 0 THEN "drawn into a figure that was not given" ELSE IF ~e.same THEN "the given figure is not returned" ELSE JPlot(e)]
=============================================================================
