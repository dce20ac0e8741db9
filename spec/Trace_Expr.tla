----------------------------- MODULE Trace_Expr -----------------------------
EXTENDS Monitor, Expr
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
=============================================================================
