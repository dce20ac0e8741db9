---- MODULE Trace_Kinem ----
EXTENDS Monitor, Kinem
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
====
