-------------------------------- MODULE Dual --------------------------------
(* Arguments with one directional derivative, as the drivers record them: a   *)
(* pair <<value, derivative>> is the dual number value + derivative * eps.    *)
(* Every operation of Rat propagates both, so one evaluation of a formula of  *)
(* the specification gives the expected value and the expected derivative.    *)
EXTENDS Vec
D1(x)       == RDual(x[1], x[2])
DV(x)       == Now([i \in 1..Len(x) |-> D1(x[i])])
DM(x)       == Now([i \in 1..Len(x) |-> DV(x[i])])
DA(x)       == Now([i \in 1..Len(x) |-> DM(x[i])])
\* recorded pair o / plain value p against the expected dual number e
DClose(o, p, e)  == RClose(o[1], RVal(e)) /\ RClose(o[2], RDer(e, 1)) /\ RClose(p, RVal(e))
DVClose(o, p, e) == Len(o) = Len(e) /\ Len(p) = Len(e) /\ \A i \in 1..Len(e) : DClose(o[i], p[i], e[i])
DMClose(o, p, e) == Len(o) = Len(e) /\ Len(p) = Len(e) /\ \A i \in 1..Len(e) : DVClose(o[i], p[i], e[i])
\* the value only (where the derivative is not defined)
DPlain(o, p, e)  == RClose(o[1], RVal(e)) /\ RClose(p, RVal(e))
\* exactly as it was given: x is the argument (a pair)
DSame(o, p, x)   == REq(o[1], x[1]) /\ REq(o[2], x[2]) /\ REq(p, x[1])
DVSame(o, p, x)  == Len(o) = Len(x) /\ Len(p) = Len(x) /\ \A i \in 1..Len(x) : DSame(o[i], p[i], x[i])
DMSame(o, p, x)  == Len(o) = Len(x) /\ Len(p) = Len(x) /\ \A i \in 1..Len(x) : DVSame(o[i], p[i], x[i])
\* cells addressed by an event (recorded zero-based)
Cells(e)    == {e.cells[i] + 1 : i \in 1..Len(e.cells)}
\* every addressed cell agrees with Exp(c), every other one is as it was
CellsV(e, Exp(_)) == Len(e.out.r) = Len(e.r0) /\ \A c \in 1..Len(e.r0) :
  IF c \in Cells(e) THEN DClose(e.out.r[c], e.out.p[c], Exp(c)) ELSE DSame(e.out.r[c], e.out.p[c], e.r0[c])
CellsM(e, Exp(_)) == Len(e.out.r) = Len(e.r0) /\ \A c \in 1..Len(e.r0) :
  IF c \in Cells(e) THEN DVClose(e.out.r[c], e.out.p[c], Exp(c)) ELSE DVSame(e.out.r[c], e.out.p[c], e.r0[c])
=============================================================================
