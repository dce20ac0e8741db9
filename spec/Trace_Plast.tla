---- MODULE Trace_Plast ----
EXTENDS Monitor, Plasticity
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
====
