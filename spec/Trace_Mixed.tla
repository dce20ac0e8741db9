---- MODULE Trace_Mixed ----
EXTENDS Monitor, Mixed
TheJudge(s, e) == JudgeMixed(s, e)
TheSt0 == Init0
====
