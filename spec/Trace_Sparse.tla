---------------------------- MODULE Trace_Sparse ----------------------------
EXTENDS Monitor, Sparse
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
=============================================================================
