---- MODULE Trace_Interp ----
EXTENDS Monitor, Interp
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
====
