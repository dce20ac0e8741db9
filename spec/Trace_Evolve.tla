---------------------------- MODULE Trace_Evolve ----------------------------
EXTENDS Monitor, Evolve
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
=============================================================================
