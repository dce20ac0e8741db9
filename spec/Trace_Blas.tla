----------------------------- MODULE Trace_Blas -----------------------------
EXTENDS Monitor, Blas
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
=============================================================================
