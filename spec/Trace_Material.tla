--------------------------- MODULE Trace_Material ---------------------------
EXTENDS Monitor, Material
TheJudge(s, e) == Judge1(s, e)
TheSt0 == Init0
=============================================================================
