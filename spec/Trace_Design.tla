---------------------------- MODULE Trace_Design ----------------------------
EXTENDS Monitor, Design
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
=============================================================================
