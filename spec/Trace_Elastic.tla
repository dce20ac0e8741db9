---- MODULE Trace_Elastic ----
EXTENDS Monitor, Elastic
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
====
