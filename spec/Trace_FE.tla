---- MODULE Trace_FE ----
EXTENDS Monitor, Prob
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
====
