---- MODULE Trace_Trans ----
EXTENDS Monitor, Trans
TheJudge(s, e) == JudgeT(s, e)
TheSt0 == Init0
====
