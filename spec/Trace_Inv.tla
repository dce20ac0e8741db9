------------------------------ MODULE Trace_Inv ------------------------------
EXTENDS Monitor, Invariants
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
=============================================================================
