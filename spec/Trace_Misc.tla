---------------------------- MODULE Trace_Misc ----------------------------
EXTENDS Monitor, Misc
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
=============================================================================
