----------------------------- MODULE Trace_Comm -----------------------------
EXTENDS Monitor, Comm
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
=============================================================================
